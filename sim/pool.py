"""Runs each task in its own fork of the pristine process, on several cores.  Order and number of workers do not
matter to any result: a task sees nothing but the state of the process at the time of the map() call."""
import os
import pickle
import select
import signal
import struct
import sys
import time


def _read_all(fd, deadline, pid):
    chunks = []
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            return None
        r, _, _ = select.select([fd], [], [], left)
        if not r:
            return None
        b = os.read(fd, 1 << 20)
        if not b:
            return b''.join(chunks)
        chunks.append(b)


def run_isolated(fn, task, timeout):
    """('ok', value) | ('signal', n) | ('hang',) | ('harness', text)"""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(rfd)
            try:
                val = ('ok', fn(task))
            except BaseException:                                   # noqa
                import traceback
                val = ('harness', traceback.format_exc())
            data = pickle.dumps(val, protocol=4)
            view = memoryview(data)
            while view:
                n = os.write(wfd, view[:1 << 20])
                view = view[n:]
        except BaseException:                                       # noqa
            code = 77
        finally:
            os._exit(code)
    os.close(wfd)
    data = _read_all(rfd, time.monotonic() + timeout, pid)
    os.close(rfd)
    if data is None:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        return ('hang',)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        return ('signal', os.WTERMSIG(st))
    if not data:
        return ('harness', 'exit status %d without a result' % st)
    return pickle.loads(data)


def map_isolated(fn, tasks, workers=8, timeout=60, deadline=None, quiet=True):
    """list of results of run_isolated in the order of tasks; None for tasks not started before the deadline"""
    tasks = list(tasks)
    if not tasks:
        return []
    workers = max(1, min(workers, len(tasks)))
    sys.stdout.flush()
    sys.stderr.flush()
    fds = {}
    pids = []
    for w in range(workers):
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rfd)
                for f in fds:
                    os.close(f)
                if quiet:
                    null = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(null, 1)
                    os.dup2(null, 2)
                for i in range(w, len(tasks), workers):
                    if deadline is not None and time.monotonic() > deadline:
                        break
                    res = run_isolated(fn, tasks[i], timeout)
                    data = pickle.dumps((i, res), protocol=4)
                    data = struct.pack('<Q', len(data)) + data
                    view = memoryview(data)
                    while view:
                        n = os.write(wfd, view[:1 << 20])
                        view = view[n:]
            finally:
                os._exit(0)
        os.close(wfd)
        fds[rfd] = bytearray()
        pids.append(pid)
    out = [None] * len(tasks)
    open_fds = set(fds)
    while open_fds:
        r, _, _ = select.select(list(open_fds), [], [], 5.0)
        for fd in r:
            b = os.read(fd, 1 << 20)
            if not b:
                os.close(fd)
                open_fds.discard(fd)
                continue
            buf = fds[fd]
            buf += b
            while len(buf) >= 8:
                n = struct.unpack('<Q', bytes(buf[:8]))[0]
                if len(buf) < 8 + n:
                    break
                i, res = pickle.loads(bytes(buf[8:8 + n]))
                del buf[:8 + n]
                out[i] = res
    for pid in pids:
        os.waitpid(pid, 0)
    return out

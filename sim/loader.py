"""A second installation, started with other hash randomisation: python -m sim.loader SOCKET.  Each request is served by a fork."""
import ctypes
import os
import pickle
import signal
import socket
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import boot                                                # noqa
from sim.props.c09 import recv, send                                # noqa


def main():
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    s = socket.socket(socket.AF_UNIX)
    s.bind('\0' + sys.argv[1])
    s.listen(64)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    from sim.props import c16
    boot.boot()
    while True:
        c, _ = s.accept()
        if os.fork():
            c.close()
            continue
        signal.signal(signal.SIGCHLD, signal.SIG_DFL)
        try:
            send(c, pickle.dumps(('ok', c16.generation(pickle.loads(recv(c))))))
        except BaseException:                                       # noqa
            import traceback
            send(c, pickle.dumps(('harness', traceback.format_exc())))
        finally:
            os._exit(0)


if __name__ == '__main__':
    main()

"""Builds what a check needs from /repo's working tree and from this directory."""
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def build_repo():
    # the extensions are rebuilt incrementally, keyed by the contents of their sources
    p = subprocess.run([sys.executable, '/opt/vp/build_ext.py'], cwd='/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def build_seam():
    import numpy as np
    src = os.path.join(VERIF, 'sim', 'allocfault.c')
    d = os.path.join(VERIF, '.build')
    out = os.path.join(d, 'allocfault.so')
    if os.path.exists(out) and os.path.getmtime(out) > os.path.getmtime(src):
        return
    os.makedirs(d, exist_ok=True)
    tmp = out + '.%d' % os.getpid()
    subprocess.run(['gcc', '-O2', '-w', '-shared', '-fPIC', '-I' + np.get_include(), '-I' + sysconfig.get_paths()['include'], src, '-o', tmp], check=True)
    os.replace(tmp, out)


def build_iofault():
    """the preloaded I/O seam, needed before the interpreter starts"""
    src = os.path.join(VERIF, 'sim', 'iofault.c')
    out = os.path.join(VERIF, '.build', 'iofault.so')
    if not os.path.exists(out) or os.path.getmtime(out) <= os.path.getmtime(src):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + '.%d' % os.getpid()
        subprocess.run(['gcc', '-O2', '-w', '-shared', '-fPIC', src, '-o', tmp, '-ldl'], check=True)
        os.replace(tmp, out)
    return out


def ensure_env(preload=False):
    """fixed interpreter settings; restarts the interpreter when they are not in place"""
    want = dict(PYTHONDONTWRITEBYTECODE='1', PYTHONNOUSERSITE='1', MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
                NUMBA_NUM_THREADS='1', NUMBA_CACHE_DIR='/tmp')
    want['PYTHONHASHSEED'] = os.environ.get('VERIF_HASHSEED', '0')
    py = '/opt/venv/bin/python'
    if os.environ.get('VERIF_SIM') == '1':
        return
    env = dict(os.environ, **want)
    env.pop('PYTHONPATH', None)
    env.pop('PYTHONWARNINGS', None)
    env['PATH'] = '/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
    env['VERIF_SIM'] = '1'
    if preload:
        env['LD_PRELOAD'] = build_iofault()
    mpl = os.path.join(VERIF, '.build', 'mpl')
    if not os.path.isdir(mpl):
        os.makedirs(os.path.dirname(mpl), exist_ok=True)
        src = '/opt/vp/cache/matplotlib'
        tmp = tempfile.mkdtemp(dir=os.path.dirname(mpl))
        if os.path.isdir(src):
            shutil.copytree(src, tmp, dirs_exist_ok=True)
        try:
            os.rename(tmp, mpl)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    env['MPLCONFIGDIR'] = mpl
    sys.stdout.flush()
    os.execve(py, [py, '-W', 'ignore'] + sys.argv, env)

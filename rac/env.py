"""Build the package of the current working tree in a scratch directory.

/repo/src is copied to a fresh temporary directory and the compiled kernels are
built there from the current .pyx sources (never inside /repo)."""
import os
import re
import shutil
import subprocess
import sys
import sysconfig
import tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')


def build(bounds=False):
    """-> scratch directory to put on sys.path; raises RuntimeError if the kernels do not build"""
    tmp = tempfile.mkdtemp(prefix='pykrige_rac_')
    dst = os.path.join(tmp, 'pykrige')
    shutil.copytree(os.path.join(REPO, 'src', 'pykrige'), dst,
                    ignore=shutil.ignore_patterns('*.so', '*.c', '__pycache__'))
    import numpy
    lib = os.path.join(dst, 'lib')
    mods = sorted(f[:-4] for f in os.listdir(lib) if f.endswith('.pyx'))
    opts = []
    if bounds:
        for m in mods:
            p = os.path.join(lib, m + '.pyx')
            s = open(p, newline='').read()
            s = re.sub(r'boundscheck\s*\(\s*False\s*\)', 'boundscheck(True)', s)
            s = re.sub(r'boundscheck\s*=\s*False', 'boundscheck=True', s)
            open(p, 'w', newline='').write(s)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    ps = [subprocess.Popen([sys.executable, '-m', 'cython', '-3', 'pykrige/lib/%s.pyx' % m] + opts, cwd=tmp, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT) for m in mods]
    outs = [p.communicate()[0] for p in ps]
    for p, o in zip(ps, outs):
        if p.returncode:
            raise RuntimeError('cython failed: ' + o.decode()[-800:])
    suffix = sysconfig.get_config_var('EXT_SUFFIX')
    ps = []
    for m in mods:
        cmd = ['gcc', '-O1', '-w', '-shared', '-fPIC', '-DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION',
               '-I' + numpy.get_include(), '-I' + sysconfig.get_paths()['include'],
               'pykrige/lib/%s.c' % m, '-o', 'pykrige/lib/' + m + suffix]
        ps.append(subprocess.Popen(cmd, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
    outs = [p.communicate()[0] for p in ps]
    for p, o in zip(ps, outs):
        if p.returncode:
            raise RuntimeError('gcc failed: ' + o.decode()[-800:])
    return tmp

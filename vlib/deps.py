"""Make `hypothesis` importable from the interpreter that has rdtools' dependencies.

The sandbox has no network; the wheel is in /opt/veriftools/wheels.  It is unpacked
(wheels are zip files) into <verif>/.deps by setup.sh, or on demand into a scratch
directory if .deps is missing or cannot be written.
"""
import glob
import os
import shutil
import sys
import tempfile
import zipfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WHEELS = '/opt/veriftools/wheels'
VENV_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def _wheels():
    out = []
    for pat in ('hypothesis-*cp312-cp312-*x86_64.whl', 'sortedcontainers-*.whl', 'attrs-*.whl'):
        hits = sorted(glob.glob(os.path.join(WHEELS, pat)))
        hits = [h for h in hits if 'graphql' not in h]
        if not hits:
            return None
        out.append(hits[-1])
    return out


def _unpack(dst):
    tmp = tempfile.mkdtemp(prefix='deps-', dir=os.path.dirname(dst) or '.')
    try:
        for w in _wheels():
            with zipfile.ZipFile(w) as z:
                z.extractall(tmp)
        try:
            os.rename(tmp, dst)
        except OSError:
            if not os.path.isdir(os.path.join(dst, 'hypothesis')):
                raise
            shutil.rmtree(tmp, ignore_errors=True)
    except BaseException:
        shutil.rmtree(tmp, ignore_errors=True)
        raise
    return dst


def ensure():
    try:
        import hypothesis
        return os.path.dirname(hypothesis.__file__)
    except ImportError:
        pass
    d = os.path.join(HERE, '.deps')
    if not os.path.isdir(os.path.join(d, 'hypothesis')):
        if _wheels():
            try:
                d = _unpack(d)
            except OSError:
                d = _unpack(os.path.join(tempfile.mkdtemp(prefix='verif-deps-'), 'deps'))
        else:
            # last resort: borrow only these packages from the tooling venv
            d = os.path.join(tempfile.mkdtemp(prefix='verif-deps-'), 'deps')
            os.makedirs(d)
            for name in ('hypothesis', 'sortedcontainers', 'attr', 'attrs',
                         '_hypothesis_pytestplugin.py', '_hypothesis_globals.py'):
                src = os.path.join(VENV_SITE, name)
                if os.path.exists(src):
                    os.symlink(src, os.path.join(d, name))
    sys.path.append(d)
    import hypothesis
    return os.path.dirname(hypothesis.__file__)

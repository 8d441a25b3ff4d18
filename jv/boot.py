"""Process set-up: environment, import paths, the library under test."""
import os
import sys

VT_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
REPO = os.environ.get('JV_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable

ENV = {
    'PYTHONHASHSEED': '0',
    'TZ': 'UTC',
    'LC_ALL': 'C.UTF-8',
    'PYTHONDONTWRITEBYTECODE': '1',
    'PYTHONNOUSERSITE': '1',
    'HYPOTHESIS_NO_PLUGINS': '1',
}


def child_env():
    env = {k: v for k, v in os.environ.items()
           if k not in ('PYTHONPATH', 'PYTHONSTARTUP', 'PYTHONWARNINGS')}
    env.update(ENV)
    return env


def boot():
    """Make hypothesis and the jsons of the working tree importable."""
    sys.setrecursionlimit(3000)
    if VT_SITE not in sys.path:
        sys.path.append(VT_SITE)   # at the end: the repository's own venv wins
    import hypothesis  # noqa
    import attr  # noqa
    # Never read or write byte code of the code under test.
    sys.pycache_prefix = '/nonexistent/jv'
    sys.dont_write_bytecode = True   # (or CPython makes a relative 'nonexistent' folder)
    sys.path.insert(0, REPO)
    import jsons
    here = os.path.realpath(jsons.__file__)
    want = os.path.realpath(os.path.join(REPO, 'jsons', '__init__.py'))
    if here != want:
        raise RuntimeError('wrong jsons imported: %s' % here)
    return jsons

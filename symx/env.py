"""Import environment shared by the symbolic and the concrete runs: /repo first, stand-ins for absent packages."""
import os
import sys

REPO = os.environ.get('SYMX_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def setup():
    for p in (HERE, REPO):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    sys.dont_write_bytecode = True
    try:
        import moirae
    except ImportError:
        raise
    f = os.path.realpath(moirae.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f'moirae was imported from {f}, not from {REPO}')


def z3path():
    p = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
    if p not in sys.path:
        sys.path.append(p)


if __name__ == '__main__':
    setup()
    z3path()
    import z3
    print('z3', z3.get_version_string())

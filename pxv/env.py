"""Process set-up shared by every harness process: import paths and limits."""
import os
import sys

REPO = os.environ.get('PXV_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def setup():
    """Put the code under test first and the tooling last on sys.path."""
    sys.dont_write_bytecode = True
    if REPO not in sys.path[:1]:
        sys.path.insert(0, REPO)
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        if VT_SITE not in sys.path:
            sys.path.append(VT_SITE)
        import hypothesis  # noqa: F401
    import pydantic_xml
    got = os.path.realpath(pydantic_xml.__file__)
    want = os.path.realpath(os.path.join(REPO, 'pydantic_xml'))
    if not got.startswith(want):
        raise RuntimeError(f'imported {got}, wanted the tree in {want}')

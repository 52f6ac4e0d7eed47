"""Makes /repo's golem_messages importable in this sandbox, complete with its
__init__.py.  Import this module before golem_messages.

What is supplied (nothing in /repo is changed):
 * `pyelliptic` and `_functools` from this directory (see there);
 * `eth_utils.toolz`, which eth_rlp expects and the pinned eth_utils lacks:
   a plain re-export of toolz;
 * the generated file golem_messages/RELEASE-VERSION, which `setup.py` writes
   from git tags and which is absent here: opening it for reading yields the
   version in $GM_VERSION (default 2.24.3) unless the file really exists.
"""
import builtins
import importlib
import io
import os
import sys
import types

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('GM_REPO', '/repo')
VERSION = os.environ.get('GM_VERSION', '2.24.3')


def _redirect_release_version():
    target = os.path.join(REPO, 'golem_messages', 'RELEASE-VERSION')
    real_open = io.open

    def opener(file, mode='r', *args, **kwargs):
        try:
            name = os.path.abspath(os.fspath(file))
        except TypeError:
            name = None
        if name == target and 'r' in mode and (
                'GM_VERSION' in os.environ or not os.path.exists(target)):
            if 'b' in mode:
                return io.BytesIO(VERSION.encode())
            return io.StringIO(VERSION)
        return real_open(file, mode, *args, **kwargs)
    return opener, real_open


def install():
    if HERE not in sys.path:
        sys.path.insert(0, HERE)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    import warnings
    warnings.filterwarnings('ignore')
    if 'eth_utils.toolz' not in sys.modules:
        import toolz
        try:
            importlib.import_module('eth_utils.toolz')
        except ImportError:
            mod = types.ModuleType('eth_utils.toolz')
            for name in dir(toolz):
                if not name.startswith('_'):
                    setattr(mod, name, getattr(toolz, name))
            sys.modules['eth_utils.toolz'] = mod
            import eth_utils
            eth_utils.toolz = mod
    opener, real_open = _redirect_release_version()
    io.open = opener
    builtins.open = opener
    try:
        golem_messages = importlib.import_module('golem_messages')
    finally:
        io.open = real_open
        builtins.open = real_open
    got = os.path.abspath(golem_messages.__file__)
    assert got.startswith(os.path.abspath(REPO) + os.sep), got
    return golem_messages


golem_messages = install()

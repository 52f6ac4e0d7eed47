"""CPython exposes the C module `_functools`; PyPy does not.

`bitcoin` 1.1.42 does `from _functools import reduce`.  This shim provides just
that name.
"""
from functools import reduce  # noqa: F401

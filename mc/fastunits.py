"""Memoise astropy's conversion of a compound unit to SI (11 ms each, asked for millions of times). Third-party code only: the result is the
same object astropy would build, keyed by scale, bases and powers of the unit."""
from astropy.units import core as _core

_orig = _core.UnitBase.__dict__["si"]
_func = getattr(_orig, "func", None) or _orig.fget
_memo = {}


def _si(self):
    if isinstance(self, _core.CompositeUnit):
        k = (self.scale, tuple(b.name for b in self.bases), tuple(self.powers))
    else:
        k = (type(self).__name__, getattr(self, "name", None))
        if k[1] is None:
            return _func(self)
    r = _memo.get(k)
    if r is None:
        r = _memo[k] = _func(self)
    return r


_core.UnitBase.si = property(_si)
if "si" in _core.CompositeUnit.__dict__:
    _core.CompositeUnit.si = property(_si)

"""Abstract values and heap objects of the analysis."""
from dataclasses import dataclass, replace
from typing import Any, Optional, Tuple
from . import terms as tm
from .terms import T, mk, const


@dataclass(frozen=True)
class C:                      # a Python constant
    v: Any

    def __eq__(self, o):
        return isinstance(o, C) and type(o.v) is type(self.v) and o.v == self.v

    def __hash__(self):
        return hash((type(self.v).__name__, repr(self.v)))


@dataclass(frozen=True)
class S:                      # a symbolic scalar
    t: T
    py: str = "float"         # float int num bool str any


@dataclass(frozen=True)
class Tup:
    vs: Tuple


@dataclass(frozen=True)
class Ref:
    a: int


@dataclass(frozen=True)
class RxPat:
    pattern: str
    flags: int


@dataclass(frozen=True)
class RxM:
    groups: Tuple           # values, 0 is the whole match
    names: Tuple            # (name, number)
    span: Any = None


@dataclass(frozen=True)
class Phi:                    # gated choice: ((gate term, value), ...) gates exclusive and exhaustive
    alts: Tuple


@dataclass(frozen=True)
class Fn:
    f: Any                    # FuncInfo or ast.Lambda
    env: Any = None           # closure (tuple of (name, value)) for lambdas / nested functions
    cls: Any = None
    module: Any = None

    def __hash__(self):
        return hash(id(self.f))

    def __eq__(self, o):
        return isinstance(o, Fn) and o.f is self.f and o.env == self.env


@dataclass(frozen=True)
class Bound:
    recv: Any
    fn: Fn


@dataclass(frozen=True)
class BM:                     # method of a built-in object
    recv: Any
    name: str


@dataclass(frozen=True)
class Cls:
    c: Any


@dataclass(frozen=True)
class Mod:
    m: Any


@dataclass(frozen=True)
class Ext:                    # something outside the package: numpy.*, math.*, builtins.*
    name: str


@dataclass(frozen=True)
class Slice:
    lo: Any
    hi: Any
    step: Any


@dataclass(frozen=True)
class U:                      # unknown value; refs are the objects it may be or contain
    t: T
    refs: frozenset = frozenset()


@dataclass(frozen=True)
class Super:
    cls: Any
    recv: Any


class _Unbound:
    def __repr__(self):
        return "UNBOUND"


UNBOUND = _Unbound()
NONE = C(None)
TRUE = C(True)
FALSE = C(False)


# ------------------------------------------------------------ heap objects

@dataclass(frozen=True)
class It:                     # one (summarised) element of a collection
    v: Any
    m: str = "1"              # '1' exactly one, '+' one per index of segment seg, '*' any number
    seg: Optional[str] = None
    g: Any = None             # guard term: present only if it holds (for this index)


@dataclass(frozen=True)
class DIt:
    k: Any
    v: Any
    m: str = "1"
    seg: Optional[str] = None
    g: Any = None


@dataclass(frozen=True)
class Inst:
    cls: Any
    f: Tuple                  # sorted ((name, value), ...)

    def get(self, n):
        for k, v in self.f:
            if k == n:
                return v
        return None

    def put(self, n, v):
        d = dict(self.f)
        d[n] = v
        return Inst(self.cls, tuple(sorted(d.items(), key=lambda p: p[0])))


@dataclass(frozen=True)
class Lst:
    kind: str                 # list tuple set deque range gen frozenset
    items: Tuple = ()
    op: bool = False          # open: may contain further unknown elements


@dataclass(frozen=True)
class Dct:
    items: Tuple = ()
    op: bool = False
    default: Any = None


@dataclass(frozen=True)
class Nd:
    t: Any                    # content term (None for a view)
    shape: Optional[Tuple]    # tuple of dimension terms, None when unknown
    dt: str = "float"         # float int bool object str
    base: Optional[int] = None
    path: Tuple = ()          # view: ('tr',) or ('sel', axis, idx, scalar)


class AbsExc:
    """an exception value"""
    def __init__(self, name, msg=None, site=None, internal=False, val=None):
        self.name, self.msg, self.site, self.internal, self.val = name, msg, site, internal, val

    def __repr__(self):
        return "%s@%s%s" % (self.name, self.site, "!" if self.internal else "")


EXC_PARENTS = {
    "IndexError": "LookupError", "KeyError": "LookupError", "LookupError": "Exception",
    "ZeroDivisionError": "ArithmeticError", "OverflowError": "ArithmeticError", "FloatingPointError": "ArithmeticError",
    "ArithmeticError": "Exception", "ValueError": "Exception", "LinAlgError": "ValueError", "TypeError": "Exception",
    "AttributeError": "Exception", "NameError": "Exception", "UnboundLocalError": "NameError",
    "NotImplementedError": "RuntimeError", "RecursionError": "RuntimeError", "RuntimeError": "Exception",
    "StopIteration": "Exception", "AssertionError": "Exception", "UnicodeError": "ValueError",
    "Exception": "BaseException", "SystemExit": "BaseException", "KeyboardInterrupt": "BaseException",
    "OSError": "Exception", "ImportError": "Exception",
}


def exc_isa(name, parent):
    while name:
        if name == parent:
            return True
        name = EXC_PARENTS.get(name)
    return False

"""The universe of Python values as an SMT sort, and the engine-level value wrappers."""
from fractions import Fraction
import collections.abc
import enum
import math
import types

import z3

Str = z3.DeclareSort('PyStr')
_V = z3.Datatype('Val')
_V.declare('none')
_V.declare('bool', ('b', z3.BoolSort()))
_V.declare('int', ('i', z3.IntSort()))
_V.declare('flt', ('r', z3.RealSort()))
_V.declare('inf', ('pos', z3.BoolSort()))
_V.declare('nan')
_V.declare('str', ('s', Str))
_V.declare('ref', ('a', z3.IntSort()))
_V.declare('kst', ('k', z3.IntSort()))
_V.declare('tnil')
_V.declare('tcons', ('hd', _V), ('tl', _V))
Val = _V.create()
Val.const, Val.is_const = Val.kst, Val.is_kst

I = z3.IntSort()
B = z3.BoolSort()
R = z3.RealSort()
SeqArr = z3.ArraySort(I, Val)
DomArr = z3.ArraySort(Val, B)
MapArr = z3.ArraySort(Val, Val)

clsof = z3.Function('clsof', Val, I)
strcode = z3.Function('strcode', Str, I)
LLEN = z3.Function('LLEN', I, I)
LEL = z3.Function('LEL', I, SeqArr)
DDOM = z3.Function('DDOM', I, DomArr)
DMAP = z3.Function('DMAP', I, MapArr)
DSIZE = z3.Function('DSIZE', DomArr, I)


class AnyObject:
    """Stands for every class outside the modelled universe that is not iterable."""


class AnyIterable:
    """Stands for re-iterable objects that are not list/tuple/set/dict/str."""

    def __iter__(self):
        return iter(())


class AnyIterator:
    """Stands for one-shot iterators (generators and the like)."""

    def __iter__(self):
        return self

    def __next__(self):
        raise StopIteration


class SV:
    """A symbolic Python value: a term of sort Val."""

    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"SV({self.t})"

    __hash__ = object.__hash__

    def __bool__(self):
        raise RuntimeError("symbolic value used as a host boolean")


class TypeTest(SV):
    """A boolean value that tests the class of another value (so that branches can narrow)."""

    __slots__ = ('subject', 'yes', 'no')

    def __init__(self, t, subject, yes, no):
        super().__init__(t)
        self.subject, self.yes, self.no = subject, yes, no

    def negate(self):
        return TypeTest(Val.bool(z3.Not(Val.b(self.t))), self.subject, self.no, self.yes)


class STuple:
    """A tuple with a known number of elements."""

    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return f"STuple{self.items}"


class Closure:
    """A function or lambda defined inside interpreted code."""

    def __init__(self, node, env, name, defaults, kwdefaults):
        self.node, self.env, self.name = node, env, name
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.attrs = {}


class BoundMethod:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class BuiltinMethod:
    """A method of a built-in type applied to a symbolic or heap value."""

    def __init__(self, self_, kind, name):
        self.self_, self.kind, self.name = self_, kind, name

    def __repr__(self):
        return f"<builtin {self.kind}.{self.name}>"


class SuperProxy:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class SExc:
    """A Python exception instance."""

    def __init__(self, cls, args=()):
        self.cls, self.args = cls, args

    def __repr__(self):
        return f"SExc({self.cls.__name__})"


class SGen:
    """A lazy generator expression: element function over an iterable."""

    def __init__(self, node, env):
        self.node, self.env = node, env


class SIter:
    """A view used for iteration: enumerate/zip/items/reversed/... over sequences."""

    def __init__(self, kind, parts):
        self.kind, self.parts = kind, parts


# ---------------------------------------------------------------- contents of containers
class CSeq:
    """Contents of a list-like object: a known spine, or a length and an element array."""

    __slots__ = ('spine', 'n', 'arr')

    def __init__(self, spine=None, n=None, arr=None):
        self.spine, self.n, self.arr = spine, n, arr


class CMap:
    """Contents of a dict: known pairs in order, or a domain and a map array."""

    __slots__ = ('spine', 'dom', 'map', 'size', 'order')

    def __init__(self, spine=None, dom=None, map=None, size=None, order=None):
        self.spine, self.dom, self.map, self.size, self.order = spine, dom, map, size, order


class CSet:
    __slots__ = ('spine', 'dom', 'size')

    def __init__(self, spine=None, dom=None, size=None):
        self.spine, self.dom, self.size = spine, dom, size


# ---------------------------------------------------------------- constants
class Consts:
    """Interning of host objects and string literals."""

    def __init__(self):
        self.objs = []
        self.index = {}
        self.strs = {}
        self.str_lits = []

    def const(self, obj):
        key = id(obj)
        if key not in self.index:
            self.index[key] = len(self.objs)
            self.objs.append(obj)
        return self.index[key]

    def string(self, s):
        if s not in self.strs:
            c = z3.Const(f"lit!{len(self.str_lits)}", Str)
            self.strs[s] = c
            self.str_lits.append(s)
        return self.strs[s]


CONSTS = Consts()

# ---------------------------------------------------------------- classes
BUILTIN_CLASSES = [type(None), bool, int, float, str, tuple, list, dict, set, frozenset, bytes,
                   type, types.FunctionType, AnyObject, AnyIterable, AnyIterator]


class Universe:
    """The finite set of classes that symbolic inputs can have."""

    def __init__(self):
        self.classes = []
        self.ids = {}
        for c in BUILTIN_CLASSES:
            self.add(c)

    def add(self, c):
        if c not in self.ids:
            self.ids[c] = len(self.classes)
            self.classes.append(c)
        return self.ids[c]

    def cid(self, c):
        if c not in self.ids:
            self.add(c)
        return self.ids[c]


UNIVERSE = Universe()


def is_const_class(c):
    """Classes whose instances are modelled as interned host constants."""
    return (isinstance(c, type) and issubclass(c, enum.Enum)) or c in (type, types.FunctionType,
                                                                       bytes)


def is_scalar_class(c):
    return c in (type(None), bool, int, float, str)


def simp(t):
    return z3.simplify(t)


def real_of(x):
    f = Fraction(x)
    return z3.RealVal(f"{f.numerator}/{f.denominator}")


class Poison:
    """A variable whose value after a loop is not tracked."""

    def __init__(self, why):
        self.why = why


class StarArgs:
    """An unbounded *args sequence passed on."""

    def __init__(self, value):
        self.value = value


class SCtxMgr:
    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs


class LazyType:
    """type(v), not yet resolved to one class (most uses are in messages)."""

    def __init__(self, v):
        self.v = v


class SMock:
    """A host-provided opaque object with modelled methods: {name: callable(interp, *args)}."""

    def __init__(self, name, methods):
        self.name, self.methods = name, methods


HOST_CONTAINERS = (list, tuple, set, frozenset, dict, type({}.keys()), type({}.values()),
                   type({}.items()), types.MappingProxyType, range)


def concrete(v):
    """Whether the value is a plain host value with no symbolic part."""
    if isinstance(v, (SV, STuple, Closure, BoundMethod, BuiltinMethod, SuperProxy, SExc, SGen,
                      SIter, SCtxMgr, SMock, Poison, LazyType)):
        return isinstance(v, STuple) and all(concrete(x) for x in v.items)
    return True


def to_host(v):
    if isinstance(v, STuple):
        return tuple(to_host(x) for x in v.items)
    return v


BUILTIN_SET = set(BUILTIN_CLASSES)

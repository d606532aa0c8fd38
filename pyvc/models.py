"""Models of the built-in types and functions (the trusted semantics of Python itself)."""
import ast
import builtins
import collections.abc
import enum
import math
import operator
import types
import uuid

import z3

from .ctx import MISSING, PathAbort, PyRaise, Unsupported
from .values import *  # noqa: F401,F403
from .values import CONSTS, UNIVERSE

KEYS = z3.Function('KEYS', DomArr, SeqArr)
KPOS = z3.Function('KPOS', DomArr, Val, I)
EMPTY = z3.K(Val, z3.BoolVal(False))
IDOF = z3.Function('IDOF', Val, I)
UNID = z3.Function('UNID', I, Val)
ISI = z3.Function('ISI', I, Val, B)       # issubclass(class tag, opaque classinfo)
CALLABLE = z3.Function('CALLABLE', Val, B)
HASHABLE = z3.Function('HASHABLE', Val, B)
STRLT = z3.Function('STRLT', Str, Str, B)
STROF = z3.Function('STROF', Val, Str)
NUMERIC = (bool, int, float)
_strfuns = {}
SORTEDKEYS = z3.Function('SORTEDKEYS', DomArr, SeqArr)
SKPOS = z3.Function('SKPOS', DomArr, Val, I)
LOWER = z3.Function('str_lower', Str, Str)
CONCAT = z3.Function('str_concat', Str, Str, Str)


def as_real(t):
    return z3.If(Val.is_int(t), z3.ToReal(Val.i(t)),
                 z3.If(Val.is_bool(t), z3.If(Val.b(t), z3.RealVal(1), z3.RealVal(0)), Val.r(t)))


def is_num(t):
    return z3.Or(Val.is_int(t), Val.is_flt(t), Val.is_bool(t))


def has_own_eq(c):
    return c.__eq__ is not object.__eq__


_mention_cache = {}


def _mentions(formula, arr):
    key = (formula.get_id(), arr.get_id())
    hit = _mention_cache.get(key)
    if hit is None:
        from .loops import _depends_any
        hit = (_depends_any(formula, [arr]), formula, arr)
        _mention_cache[key] = hit
    return hit[0]


def _has_lambda(t):
    if z3.is_quantifier(t):
        return True
    return any(_has_lambda(c) for c in t.children() if z3.is_array(c))


TEXTLEN = z3.Function('TEXT_LEN', Val, I)
TEXTITEMS = z3.Function('TEXT_ITEMS', Val, SeqArr)
TUPLE_HASHABLE = z3.Function('TUPLE_HASHABLE', Val, B)


class Models:
    def force(self, v):
        """The class itself, for a type(...) that was not needed until now."""
        return self.ctx.resolve_class(v.v) if isinstance(v, LazyType) else v
    # ------------------------------------------------------------ truth
    def truth(self, v):
        ctx = self.ctx
        if isinstance(v, STuple):
            return len(v.items) > 0
        if isinstance(v, (Closure, BoundMethod, BuiltinMethod, SExc, SGen, SMock)):
            return True
        if isinstance(v, Poison):
            raise Unsupported("truth of an untracked value")
        if not isinstance(v, SV):
            return bool(v)
        t = v.t
        if ctx.ctor(t) == 'bool':
            return v
        cands = ctx.candidates(v)
        if cands == frozenset([bool]):
            return self.bool_(Val.b(t))
        scal = [c for c in cands if is_scalar_class(c)]
        if len(scal) < len(cands):
            if scal and self.decide(ctx.type_test(v, is_scalar_class)):
                return self.truth(v)
            cands = ctx.candidates(v)
            conts = [c for c in cands if hasattr(c, '__len__') or hasattr(c, '__bool__')]
            if not conts:
                return True
            if len(conts) < len(cands):
                if not self.decide(ctx.type_test(v, lambda c: c in conts)):
                    return True
            if all(is_const_class(c) for c in ctx.candidates(v)):
                return True if all(bool(m) for c in ctx.candidates(v)
                                   if isinstance(c, enum.EnumMeta) for m in c) else \
                    self.not_(self.eq(v, 0))
            n = self.len_(v)
            return n != 0 if isinstance(n, int) else self.bool_(Val.i(n.t) != 0)
        f = z3.Or(z3.And(Val.is_bool(t), Val.b(t)), z3.And(Val.is_int(t), Val.i(t) != 0),
                  z3.And(Val.is_flt(t), Val.r(t) != 0), Val.is_inf(t), Val.is_nan(t),
                  z3.And(Val.is_str(t), Val.s(t) != ctx.strlit('')))
        return self.bool_(f)

    # ------------------------------------------------------------ identity, equality, order
    def is_(self, a, b):
        a, b = self.force(a), self.force(b)
        if not isinstance(a, SV) and not isinstance(b, SV):
            if isinstance(a, STuple) or isinstance(b, STuple):
                return a is b
            return a is b
        for x, y in ((a, b), (b, a)):
            if not isinstance(x, SV):
                if x is None or x is True or x is False or not isinstance(
                        x, (int, float, str, STuple)) or isinstance(x, enum.Enum):
                    return self.bool_(y.t == self.ctx.lift(x))
                raise Unsupported("identity test with a number or string")
        if a.t.eq(b.t):
            return True
        ca, cb = self.ctx.candidates(a), self.ctx.candidates(b)
        if not (ca & cb):
            return False
        for c in ca & cb:
            if c in (int, float, str, tuple):
                # identity of immutables: equal terms may or may not be the same object
                f = self.ctx.fresh(B, 'same')
                self.ctx.assume(z3.Implies(f, a.t == b.t))
                self.ctx.assume(z3.Implies(z3.And(a.t == b.t, z3.Or(
                    Val.is_ref(a.t), Val.is_none(a.t), Val.is_bool(a.t), Val.is_const(a.t))), f))
                return self.bool_(f)
        return self.bool_(a.t == b.t)

    def eq(self, a, b):
        a, b = self.force(a), self.force(b)
        """a == b"""
        ctx = self.ctx
        if isinstance(a, STuple) and type(b) is tuple:
            b = STuple(b)
        if isinstance(b, STuple) and type(a) is tuple:
            a = STuple(a)
        if isinstance(a, STuple) and isinstance(b, STuple):
            if len(a.items) != len(b.items):
                return False
            for x, y in zip(a.items, b.items):
                r = self.eq_elem(x, y)
                if not self.decide(r):
                    return False
            return True
        if not isinstance(a, SV) and not isinstance(b, SV):
            if isinstance(a, STuple) or isinstance(b, STuple):
                return False
            if a is b:
                return True
            return bool(a == b)
        # operands of built-in scalar types first
        ca, cb = ctx.candidates(a), ctx.candidates(b)
        simple = lambda c: is_scalar_class(c) or is_const_class(c) or c is AnyObject  # noqa: E731
        for v, cs, w in ((a, ca, b), (b, cb, a)):
            if isinstance(v, SV) and not all(simple(c) for c in cs) and any(simple(c) for c in cs):
                # split scalars from heap objects
                self.decide(ctx.type_test(v, simple))
                return self.eq(a, b)
        a_simple = all(simple(c) for c in ca)
        b_simple = all(simple(c) for c in cb)
        if a_simple and b_simple:
            return self.eq_simple(a, b)
        if isinstance(a, SV) and isinstance(b, SV) and a.t.eq(b.t) and a_simple:
            return True
        # rich comparison dispatch
        r = self.try_eq(a, b)
        if r is not NotImplemented:
            return r
        r = self.try_eq(b, a)
        if r is not NotImplemented:
            return r
        return self.is_(a, b)

    def eq_elem(self, a, b):
        """Element comparison inside containers: identity or equality."""
        if isinstance(a, SV) and isinstance(b, SV) and a.t.eq(b.t):
            return True
        return self.eq(a, b)

    def try_eq(self, a, b):
        ctx = self.ctx
        if isinstance(a, STuple):
            ca = tuple
        elif not isinstance(a, SV):
            ca = type(a)
        else:
            groups = {}
            for c in ctx.candidates(a):
                f = self.static(c, '__eq__')
                h = ctx.func_contracts.get(f) if isinstance(f, types.FunctionType) else None
                groups.setdefault(id(f if h is None else h), set()).add(c)
            keys = list(groups)
            while len(keys) > 1:
                m = groups[keys[0]]
                if self.decide(ctx.type_test(a, lambda c: c in m)):
                    keys = keys[:1]
                else:
                    keys = keys[1:]
            ca = next(iter(groups[keys[0]]))
        m = self.static(ca, '__eq__')
        if isinstance(m, types.FunctionType):
            return self.call(m, [a, b])
        if issubclass(ca, (list, tuple, dict, set, frozenset)):
            return self.container_eq(a, b, ca)
        return NotImplemented

    def container_eq(self, a, b, ca):
        kind = next(k for k in (list, tuple, dict, (set, frozenset)) if issubclass(ca, k))
        t = self.isinstance_(b, kind)
        if not self.decide(t):
            return NotImplemented
        if kind in (list, tuple):
            x, y = self.seq_content(a), self.seq_content(b)
            if x.spine is not None and y.spine is not None:
                return self.eq(STuple(x.spine), STuple(y.spine))
        elif kind is dict:
            x, y = self.map_content(a), self.map_content(b)
            if x.spine is not None and y.spine is not None:
                if len(x.spine) != len(y.spine):
                    return False
                for k, v in x.spine:
                    w = self.dict_get(b, k)
                    if w is MISSING or not self.decide(self.eq_elem(v, w)):
                        return False
                return True
            (d1, m1), (d2, m2) = self.ctx.map_terms(x), self.ctx.map_terms(y)
            if getattr(self.ctx, 'scalar_maps', False):
                k = z3.Const('k!eq', Val)
                return self.bool_(z3.ForAll([k], z3.And(
                    d1[k] == d2[k], z3.Implies(d1[k], m1[k] == m2[k]))))
        else:
            return self.bool_(self.ctx.set_term(self.set_content_of(a))
                              == self.ctx.set_term(self.set_content_of(b)))
        raise Unsupported("comparison of unbounded containers")

    def eq_simple(self, a, b):
        ctx = self.ctx
        for x, y in ((a, b), (b, a)):
            if isinstance(x, enum.Enum):
                # a concrete member against a symbolic scalar
                opts = [y.t == ctx.lift(x)]
                if isinstance(x, str):
                    opts.append(y.t == ctx.lift(str.__str__(x) if not isinstance(x, enum.Enum)
                                                else str(x.value)))
                elif isinstance(x, int):
                    opts.append(z3.And(is_num(y.t), as_real(y.t) == int(x)))
                return self.bool_(z3.Or(opts))
        if not isinstance(a, SV) or not isinstance(b, SV):
            c, s = (a, b) if not isinstance(a, SV) else (b, a)
            if c is None or isinstance(c, str):
                r = s.t == ctx.lift(c)
                if isinstance(c, str):
                    enums = [k for k in ctx.candidates(s) if isinstance(k, enum.EnumMeta)
                             and issubclass(k, str)]
                    r = z3.Or([r] + [s.t == ctx.lift(m) for k in enums for m in k
                                     if str(m.value) == c])
                return self.bool_(r)
        ca, cb = ctx.candidates(a), ctx.candidates(b)
        ta, tb = ctx.lift(a), ctx.lift(b)
        num = lambda cs: [c for c in cs if c in NUMERIC]  # noqa: E731
        if not num(ca) or not num(cb):
            enumstr = [c for c in ca | cb if isinstance(c, enum.EnumMeta)]
            if enumstr and (str in ca or str in cb) and not (ca == cb):
                # a member of an enumeration of texts equals its text
                kinds = [k for k in enumstr if issubclass(k, str)]
                return self.bool_(z3.Or([ta == tb] + [
                    z3.And(x == ctx.lift(m), y == ctx.lift(str(m.value)))
                    for k in kinds for m in k for x, y in ((ta, tb), (tb, ta))]))
            return self.bool_(ta == tb)
        nums = z3.And(is_num(ta), is_num(tb))
        return self.bool_(z3.Or(z3.And(nums, as_real(ta) == as_real(tb)),
                                z3.And(z3.Not(nums), z3.Not(Val.is_nan(ta)), ta == tb)))

    def numeric_term(self, v):
        """Resolve a value to a finite number: ('int'|'flt', term) or a host inf/nan; or raise."""
        ctx = self.ctx
        if not isinstance(v, SV):
            if isinstance(v, enum.Enum) and isinstance(v, int):
                return 'int', z3.IntVal(int(v))
            if isinstance(v, bool):
                return 'int', z3.IntVal(int(v))
            if isinstance(v, int):
                return 'int', z3.IntVal(v)
            if isinstance(v, float):
                if math.isfinite(v):
                    return 'flt', real_of(v)
                return ('inf', v > 0) if v == v else ('nan', None)
            self.raise_(TypeError, "not a number")
        cands = ctx.candidates(v)
        ints = [c for c in cands if c not in NUMERIC]
        if ints:
            if not self.decide(ctx.type_test(v, lambda c: c in NUMERIC)):
                self.raise_(TypeError, "not a number")
        c = ctx.resolve_class(v)
        t = v.t
        if c is int:
            return 'int', z3.simplify(Val.i(t))
        if c is bool:
            return 'int', z3.If(Val.b(t), z3.IntVal(1), z3.IntVal(0))
        if ctx.branch(Val.is_flt(t)):
            return 'flt', z3.simplify(Val.r(t))
        if ctx.branch(Val.is_nan(t)):
            return 'nan', None
        return 'inf', ctx.branch(Val.pos(t))

    @staticmethod
    def _real(k, t):
        return z3.ToReal(t) if k == 'int' else t

    def order(self, op, a, b):
        ctx = self.ctx
        if concrete(a) and concrete(b):
            try:
                return bool({'<': operator.lt, '<=': operator.le, '>': operator.gt,
                             '>=': operator.ge}[op](to_host(a), to_host(b)))
            except TypeError:
                self.raise_(TypeError)
        setlike = lambda v: all(c in (set, frozenset) for c in ctx.candidates(v))  # noqa: E731
        if setlike(a) and setlike(b):
            if op in ('>=', '>'):
                a, b = b, a
            x = ctx.set_term(self.set_content_of(a))
            y = ctx.set_term(self.set_content_of(b))
            k = z3.Const('k!sub', Val)
            f = z3.ForAll([k], z3.Implies(x[k], y[k]))
            if op in ('<', '>'):
                f = z3.And(f, x != y)
            return self.bool_(f)
        strlike = lambda v: ctx.candidates(v) == frozenset([str])  # noqa: E731
        if strlike(a) and strlike(b):
            x, y = Val.s(ctx.lift(a)), Val.s(ctx.lift(b))
            return self.bool_({'<': STRLT(x, y), '>': STRLT(y, x), '<=': z3.Not(STRLT(y, x)),
                               '>=': z3.Not(STRLT(x, y))}[op])
        k1, t1 = self.numeric_term(a)
        k2, t2 = self.numeric_term(b)
        if 'nan' in (k1, k2):
            return False
        if k1 == 'inf' or k2 == 'inf':
            x = (float('inf') if t1 else float('-inf')) if k1 == 'inf' else 0.0
            y = (float('inf') if t2 else float('-inf')) if k2 == 'inf' else 0.0
            return bool({'<': operator.lt, '<=': operator.le, '>': operator.gt,
                         '>=': operator.ge}[op](x, y))
        if k1 != k2:
            t1, t2 = self._real(k1, t1), self._real(k2, t2)
        return self.bool_({'<': t1 < t2, '<=': t1 <= t2, '>': t1 > t2, '>=': t1 >= t2}[op])

    # ------------------------------------------------------------ arithmetic
    def num_value(self, k, t):
        return self.ctx.unlift(Val.int(t) if k == 'int' else Val.flt(t))

    def arith(self, op, a, b):
        if concrete(a) and concrete(b):
            return self.native({'-': operator.sub, '+': operator.add, '*': operator.mul,
                                '/': operator.truediv, '//': operator.floordiv,
                                '%': operator.mod, '**': operator.pow}[op], [a, b], {})
        k1, t1 = self.numeric_term(a)
        k2, t2 = self.numeric_term(b)
        if k1 in ('inf', 'nan') or k2 in ('inf', 'nan'):
            return SV(self.ctx.fresh(Val, 'nonfinite'))
        if op in ('/',):
            if self.ctx.branch(t2 == 0):
                self.raise_(ZeroDivisionError)
            return self.num_value('flt', self._real(k1, t1) / self._real(k2, t2))
        if op not in ('+', '-', '*'):
            raise Unsupported(f"arithmetic {op}")
        k = 'int' if k1 == k2 == 'int' else 'flt'
        if k == 'flt':
            t1, t2 = self._real(k1, t1), self._real(k2, t2)
        return self.num_value(k, {'+': t1 + t2, '-': t1 - t2, '*': t1 * t2}[op])

    def binop(self, op, a, b):
        ctx = self.ctx
        if isinstance(a, SMock) and 'binop' in a.methods:
            return a.methods['binop'](self, op, b)
        if isinstance(a, STuple) and isinstance(b, STuple) and op == '+':
            return STuple(a.items + b.items)
        ca, cb = ctx.candidates(a), ctx.candidates(b)
        if op == '+' and ca == frozenset([str]) and cb == frozenset([str]):
            return self.concat_strs([a, b])
        if op == '+' and all(issubclass(c, list) for c in ca) and \
                all(issubclass(c, list) for c in cb):
            r = self.seq_concat(self.seq_content(a), self.seq_content(b))
            o = ctx.alloc(list)
            ctx.set_content(o, r)
            return o
        sets = (set, frozenset)
        if op in '|&-' and all(c in sets for c in ca) and all(c in sets for c in cb):
            return self.set_op(op, a, b)
        if op == '*' and all(issubclass(c, list) for c in ca) and isinstance(b, int):
            c = self.seq_content(a)
            if c.spine is None:
                raise Unsupported("repetition of an unbounded list")
            return ctx.new_list(c.spine * b)
        if op == '%' and isinstance(a, str):
            return self.opaque_str('fmt')
        if concrete(a) and concrete(b) and not isinstance(a, STuple):
            return self.arith(op, a, b) if op in '+-*//%**' else self.native(
                {'|': operator.or_, '&': operator.and_, '^': operator.xor}[op], [a, b], {})
        return self.arith(op, a, b)

    def set_op(self, op, a, b):
        ctx = self.ctx
        x, y = self.set_content_of(a), self.set_content_of(b)
        o = ctx.alloc(set)
        if x.spine is not None and y.spine is not None and op == '|':
            c = CSet(spine=x.spine)
            ctx.set_content(o, c)
            for v in y.spine:
                self.set_add(o, v)
            return o
        dx, dy = ctx.set_term(x), ctx.set_term(y)
        k = z3.Const('k!op', Val)
        f = {'|': z3.Or(dx[k], dy[k]), '&': z3.And(dx[k], dy[k]),
             '-': z3.And(dx[k], z3.Not(dy[k]))}[op]
        ctx.set_content(o, CSet(dom=z3.Lambda([k], f)))
        return o

    # ------------------------------------------------------------ strings
    def opaque_str(self, hint):
        return SV(Val.str(self.ctx.fresh(Str, hint)))

    def to_str(self, v, lenient=False):
        ctx = self.ctx
        if isinstance(v, str) and not isinstance(v, enum.Enum):
            return v
        if isinstance(v, SMock) and '__str__' in v.methods:
            return v.methods['__str__'](self)
        if isinstance(v, LazyType):
            return self.opaque_str('type')
        if not isinstance(v, SV):
            if isinstance(v, enum.Enum) and isinstance(v, str):
                f = type(v).__str__
                return str(v) if not lenient else format(v)
            if isinstance(v, (int, float, bool)) or v is None:
                return str(v)
            return self.opaque_str('str')
        if ctx.candidates(v) == frozenset([str]):
            return v
        if lenient:
            return SV(Val.str(STROF(v.t)))
        if str in ctx.candidates(v):
            if self.decide(ctx.type_test(v, lambda c: c is str)):
                return v
        return SV(Val.str(STROF(v.t)))

    def concat_strs(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p != '' if isinstance(p, str) else True:
                out.append(p)
        if not out:
            return ''
        if len(out) == 1:
            return out[0]
        t = Val.s(self.ctx.lift(out[0]))
        for p in out[1:]:
            a, b = z3.simplify(t), z3.simplify(Val.s(self.ctx.lift(p)))
            t = CONCAT(a, b)
            if self.ctx.text_hook is not None:
                self.ctx.text_hook(self.ctx, 'concat', (), [a, b], t)
        return SV(Val.str(t))

    def str_term(self, v):
        ctx = self.ctx
        if isinstance(v, enum.Enum):
            return ctx.strlit(str(v.value))
        if not isinstance(v, SV) and not isinstance(v, str):
            self.raise_(TypeError, "expected str")
        if isinstance(v, SV):
            cs = ctx.candidates(v)
            if cs != frozenset([str]):
                if not self.decide(ctx.type_test(v, lambda c: issubclass(c, str))):
                    self.raise_(TypeError, "expected str")
                c = ctx.resolve_class(v)
                if c is not str:
                    if isinstance(c, enum.EnumMeta):
                        for m in c:
                            if ctx.branch(v.t == ctx.lift(m)):
                                return ctx.strlit(str(m.value))
                        raise PathAbort()
                    raise Unsupported("str subclass")
        return z3.simplify(Val.s(ctx.lift(v)))

    STR_BOOL = {'startswith', 'endswith', 'isdigit', 'isalpha', 'islower', 'isupper',
                'isidentifier', 'isspace', '__contains__'}
    STR_STR = {'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'replace', 'title', 'capitalize',
               'casefold', 'removeprefix', 'removesuffix', 'join', '__getitem__'}

    def str_method(self, v, name, args, kwargs):
        ctx = self.ctx
        if concrete(v) and all(concrete(a) for a in args) and isinstance(v, str):
            return self.native(getattr(str.__str__(v) if not isinstance(v, enum.Enum)
                                       else str(v.value), name), args, kwargs)
        if name == 'format':
            return self.opaque_str('fmt')
        if name in ('__str__',):
            return v
        if name == '__eq__':
            return self.eq(v, args[0])
        if name == 'join':
            return self.str_join(v, *args, **kwargs)
        t = self.str_term(v)
        key = [name]
        terms = [t]
        for a in args:
            if isinstance(a, SV) and str in ctx.candidates(a):
                terms.append(self.str_term(a))
            elif concrete(a):
                key.append(repr(to_host(a)))
            else:
                raise Unsupported(f"str.{name} with symbolic arguments")
        key = '_'.join(key)
        sort = B if name in self.STR_BOOL else Str
        if name not in self.STR_BOOL and name not in self.STR_STR:
            raise Unsupported(f"str.{name}")
        fk = (key, len(terms), sort)
        if key == 'lower':
            f = LOWER
        else:
            f = _strfuns.setdefault(fk, z3.Function(f'str_{key}', *([Str] * len(terms)), sort))
        r = f(*terms)
        if ctx.text_hook is not None:
            ctx.text_hook(ctx, name, args, terms, r)
        if sort == B:
            return self.bool_(r)
        if name in ('lower', 'strip', 'upper'):
            mk = ('stridem', r.get_id())
            if mk not in ctx.memo:
                ctx.memo[mk] = r
                ctx.assume(f(r) == r)
        if key == 'lower':
            self.lower_facts(r)
        return SV(Val.str(r))

    def str_join(self, sep, it):
        items = self.iterate(it)
        if items[0] != 'spine':
            ctx = self.ctx
            j = ctx.fresh(I, 'j')
            e = self.lift_elem(items[2], j)
            rng = z3.And(0 <= j, j < items[1])
            if z3.is_select(e) and z3.is_app(e.arg(0)) and e.arg(0).decl().eq(SORTEDKEYS):
                dom = e.arg(0).arg(0)
                named = ctx.memo.get(('named-of', dom.get_id()))
                ctx.assume(z3.Implies(rng, z3.And(
                    dom[e], z3.simplify((named[1] if named else dom)[e]))))
            if not ctx.entails(z3.Implies(rng, Val.is_str(e))):
                raise Unsupported("join of values that need not be texts")
            return self.opaque_str('joined')
        parts = []
        for i, x in enumerate(items[1]):
            if i:
                parts.append(sep)
            self.str_term(x)
            parts.append(x)
        return self.concat_strs(parts)

    def lower_facts(self, r):
        """Hook: ground facts relating lower(s) to the literals in play."""

    # ------------------------------------------------------------ containers: views
    def seq_content(self, v):
        if isinstance(v, STuple):
            return CSeq(spine=v.items)
        if isinstance(v, (list, tuple)):
            return CSeq(spine=tuple(self.host_in(x) for x in v))
        if isinstance(v, SV) and self.ctx.ctor(v.t) in ('tnil', 'tcons'):
            raise Unsupported("tuple of unknown length")
        return self.ctx.get_content(v, CSeq)

    def map_content(self, v):
        if isinstance(v, (dict, types.MappingProxyType)):
            return CMap(spine=tuple((self.host_in(k), self.host_in(x)) for k, x in v.items()))
        return self.ctx.get_content(v, CMap)

    def set_content_of(self, v):
        if isinstance(v, (set, frozenset)):
            return CSet(spine=tuple(self.host_in(x) for x in v))
        return self.ctx.get_content(v, CSet)

    def category(self, v):
        """Resolve a value to 'seq' | 'map' | 'set' | 'str' | 'iter' | 'gen' | None (fork)."""
        if isinstance(v, (SGen,)):
            return 'gen'
        if isinstance(v, SIter):
            return 'view'
        if isinstance(v, STuple):
            return 'seq'
        if isinstance(v, enum.EnumMeta):
            return 'host'
        if not isinstance(v, SV):
            if isinstance(v, str):
                return 'host'
            if isinstance(v, (list, tuple)):
                return 'seq'
            if isinstance(v, (dict, types.MappingProxyType)):
                return 'map'
            if isinstance(v, (set, frozenset)):
                return 'set'
            if isinstance(v, collections.abc.Iterable):
                return 'host'
            return None

        def cat(c):
            if issubclass(c, (list, tuple)) or c is AnyIterable:
                return 'seq'
            if c is AnyIterator:
                return 'iter'
            if issubclass(c, dict):
                return 'map'
            if issubclass(c, (set, frozenset)):
                return 'set'
            if issubclass(c, (str, bytes)):
                return 'str'
            if hasattr(c, '__iter__') and not is_const_class(c):
                return 'other'
            return None
        groups = {}
        for c in self.ctx.candidates(v):
            groups.setdefault(cat(c), set()).add(c)
        keys = sorted(groups, key=str)
        while len(keys) > 1:
            m = groups[keys[0]]
            if self.decide(self.ctx.type_test(v, lambda c: c in m)):
                return keys[0]
            keys = keys[1:]
        return keys[0]

    def elem(self, arr, j, v=None):
        """The value of element j of a sequence, with its shape facts."""
        made = self.ctx.memo.get(('element', arr.get_id()))
        if made is not None:
            made[1](j)       # what is known of the element it was made from
        t = z3.simplify(z3.Select(arr, j))
        self.instantiate_lemmas(arr, j)
        return self.ctx.unlift(t)

    def instantiate_lemmas(self, arr, j):
        """Facts established by loops for every index of this array, at index j."""
        ctx = self.ctx
        for jj, formula, _ in ctx.element_lemmas:
            key = ('inst', formula.get_id(), j.get_id())
            if key in ctx.memo or not _mentions(formula, arr):
                continue
            ctx.memo[key] = (formula, j)
            f = z3.substitute(formula, (jj, j))
            ctx.assume(f)

    def iterate(self, v):
        """('spine', values) or ('abs', length term, element function, source)."""
        cat = self.category(v)
        ctx = self.ctx
        if cat == 'gen':
            from . import loops
            return loops.gen_iterate(self, v)
        if cat == 'view':
            return self.iterate_view(v)
        if cat == 'host':
            return 'spine', [self.host_in(x) for x in v]
        if cat == 'seq' or cat == 'iter':
            c = self.seq_content(v)
            if cat == 'iter':
                ctx.set_content(v, CSeq(spine=()))
            if c.spine is not None:
                return 'spine', list(c.spine)
            shape = ctx.list_shapes.get(v.t.get_id()) if isinstance(v, SV) else None

            def el(j, arr=c.arr, shape=shape, v=v):
                r = self.elem(arr, j)
                if shape is not None and isinstance(r, SV):
                    shape.elem_facts(ctx, v, r)
                return r
            return 'abs', c.n, el, v
        if cat == 'map':
            c = self.map_content(v)
            if c.spine is not None:
                return 'spine', [k for k, _ in c.spine]
            n, arr = self.dom_order(c.dom)

            def mel(j, dom=c.dom, n=n, arr=arr):
                return self.key_elem(dom, n, arr, j)
            return 'abs', n, mel, v
        if cat == 'set':
            c = self.set_content_of(v)
            if c.spine is not None:
                return 'spine', list(c.spine)
            n, arr = self.dom_order(c.dom)
            return 'abs', n, lambda j: self.elem(arr, j), v
        if cat is None:
            self.raise_(TypeError, "not iterable")
        if cat == 'str' and getattr(ctx, 'text_iteration', False) and isinstance(v, SV):
            # some texts (characters), or some numbers for bytes; nothing more is known of them
            cs = ctx.candidates(v)
            if cs in ({str}, {bytes}):
                n, arr = TEXTLEN(v.t), TEXTITEMS(v.t)
                ctx.assume(n >= 0)
                i = z3.Int('i!txt')
                ctx.assume(z3.ForAll([i], Val.is_str(arr[i]) if cs == {str}
                                     else Val.is_int(arr[i]), patterns=[arr[i]]))

                def char(j, is_text=cs == {str}):
                    t = arr[j]
                    ctx.assume(Val.is_str(t) if is_text else Val.is_int(t))
                    return ctx.unlift(t)
                return 'abs', n, char, v
        raise Unsupported(f"iteration over {cat}")

    def dom_order(self, dom):
        """An enumeration of a (finite) domain."""
        ctx = self.ctx
        if not z3.is_const(dom) and _has_lambda(dom):
            named = ctx.memo.get(('named-dom', dom.get_id()))
            if named is None:
                d = ctx.fresh(DomArr, 'dom')
                k = z3.Const('k!dom', Val)
                ctx.assume(z3.ForAll([k], d[k] == dom[k], patterns=[d[k]]))
                ctx.assume(d == dom)
                named = (d, dom)
                ctx.memo[('named-dom', dom.get_id())] = named
                ctx.memo[('named-of', d.get_id())] = named
            dom = named[0]
        n, arr = DSIZE(dom), KEYS(dom)
        key = ('order', dom.get_id())
        if key not in ctx.memo:
            ctx.memo[key] = dom
            i = z3.Int('i!ord')
            k = z3.Const('k!ord', Val)
            ctx.assume(n >= 0)
            ctx.assume((n == 0) == (dom == EMPTY))
            def at(q):
                return z3.Implies(dom[q], z3.And(0 <= KPOS(dom, q), KPOS(dom, q) < n,
                                                 arr[KPOS(dom, q)] == q))
            ctx.map_hooks.append((dom, at))
            if not ctx.ground_maps:
                ctx.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(
                    dom[arr[i]], KPOS(dom, arr[i]) == i)), patterns=[arr[i]]))
                ctx.assume(z3.ForAll([k], at(k), patterns=[KPOS(dom, k)]))
        return n, arr

    def iterate_view(self, v):
        kind, parts = v.kind, v.parts
        if kind == 'items':
            c = self.map_content(parts[0])
            if c.spine is not None:
                return 'spine', [STuple(p) for p in c.spine]
            n, arr = self.dom_order(c.dom)
            return 'abs', n, (lambda j: STuple([self.key_elem(c.dom, n, arr, j),
                                                self.map_value(c, arr, j, parts[0])])), v
        if kind == 'keys':
            return self.iterate(parts[0])
        if kind == 'values':
            c = self.map_content(parts[0])
            if c.spine is not None:
                return 'spine', [p[1] for p in c.spine]
            n, arr = self.dom_order(c.dom)
            return 'abs', n, (lambda j: (self.key_elem(c.dom, n, arr, j),
                                         self.map_value(c, arr, j, parts[0]))[1]), v
        if kind == 'enumerate':
            s = self.iterate(parts[0])
            if s[0] == 'spine':
                return 'spine', [STuple((i, x)) for i, x in enumerate(s[1])]
            return 'abs', s[1], (lambda j: STuple([self.ctx.unlift(Val.int(j)), s[2](j)])), s[3]
        if kind == 'reversed':
            s = self.iterate(parts[0])
            if s[0] == 'spine':
                return 'spine', list(reversed(s[1]))
            return 'abs', s[1], (lambda j: s[2](z3.simplify(s[1] - 1 - j))), s[3]
        if kind == 'zip':
            ss = [self.iterate(p) for p in parts]
            if all(s[0] == 'spine' for s in ss):
                return 'spine', [STuple(x) for x in zip(*[s[1] for s in ss])]
        if kind == 'iter':
            return self.iterate(parts[0])
        raise Unsupported(f"iteration over {kind}")

    def key_elem(self, dom, n, arr, j):
        """The j-th key of a mapping (or element of a set)."""
        ctx = self.ctx
        mk = ('domel', dom.get_id(), arr.get_id(), j.get_id())
        if mk not in ctx.memo:
            ctx.memo[mk] = (dom, arr, j)
            d = arr.arg(0) if z3.is_app(arr) and arr.num_args() == 1 else dom
            ctx.assume(z3.Implies(z3.And(0 <= j, j < n), z3.And(
                dom[arr[j]], KPOS(d, arr[j]) == j)))
        ctx.inst_map(dom, arr[j])
        return ctx.sharpen(self.elem(arr, j))

    def map_value(self, c, arr, j, v):
        k = z3.Select(arr, j)
        r = self.ctx.sharpen(self.ctx.unlift(z3.Select(c.map, k)))
        shape = self.ctx.list_shapes.get(v.t.get_id()) if isinstance(v, SV) else None
        if shape is not None and isinstance(r, SV):
            shape.value_facts(self.ctx, v, r)
        return r

    # ------------------------------------------------------------ len / in / [] / del
    def len_(self, v):
        ctx = self.ctx
        if isinstance(v, STuple):
            return len(v.items)
        if not isinstance(v, SV):
            try:
                return len(v)
            except TypeError:
                self.raise_(TypeError)
        custom = {c for c in ctx.candidates(v)
                  if isinstance(self.static(c, '__len__'), types.FunctionType)}
        if custom and self.decide(ctx.type_test(v, lambda c: c in custom)):
            return self.call(self.getattr(v, '__len__'), [])
        cat = self.category(v)
        if cat == 'seq':
            c = self.seq_content(v)
            return len(c.spine) if c.spine is not None else ctx.unlift(Val.int(c.n))
        if cat == 'map':
            c = self.map_content(v)
            if c.spine is not None:
                return len(c.spine)
            self.dom_order(c.dom)
            return SV(Val.int(DSIZE(c.dom)))
        if cat == 'set':
            c = self.set_content_of(v)
            if c.spine is not None:
                return len(c.spine)
            self.dom_order(c.dom)
            return SV(Val.int(DSIZE(c.dom)))
        if cat == 'str':
            f = _strfuns.setdefault('len', z3.Function('str_len', Str, I))
            t = f(self.str_term(v))
            ctx.assume(t >= 0)
            return SV(Val.int(t))
        self.raise_(TypeError, "no len")

    def keyterm(self, k):
        """The term under which a key is stored (keys compare by value)."""
        ctx = self.ctx
        if isinstance(k, STuple):
            r = Val.tnil
            for x in reversed(k.items):
                r = Val.tcons(self.keyterm(x), r)
            return r
        if isinstance(k, tuple):
            return self.keyterm(STuple(k))
        if isinstance(k, SV):
            if z3.is_select(k.t) and z3.is_app(k.t.arg(0)) and k.t.arg(0).decl().eq(KEYS):
                return k.t  # what mappings and sets hold is what it is stored under
            custom = {c for c in ctx.candidates(k) if c not in BUILTIN_SET
                      and isinstance(self.static(c, '__hash__'), types.FunctionType)
                      and c.__name__ == 'LinkByUID'}
            if custom and self.decide(ctx.type_test(k, lambda c: c in custom)):
                return self.keyterm(STuple([self.getattr(k, 'scope'), self.getattr(k, 'id')]))
            unhash = {c for c in ctx.candidates(k) if c.__hash__ is None}
            if unhash and self.decide(ctx.type_test(k, lambda c: c in unhash)):
                self.raise_(TypeError, "unhashable type")
        return ctx.lift(k)

    def key_eq(self, a, b):
        """Decide equality of two dictionary keys."""
        if concrete(a) and concrete(b):
            return to_host(a) == to_host(b)
        return self.bool_(self.keyterm(a) == self.keyterm(b))

    def contains(self, cont, x):
        ctx = self.ctx
        if isinstance(cont, SV):
            custom = {c for c in ctx.candidates(cont)
                      if isinstance(self.static(c, '__contains__'), types.FunctionType)}
            if custom and self.decide(ctx.type_test(cont, lambda c: c in custom)):
                return self.truth(self.call(self.getattr(cont, '__contains__'), [x]))
        cat = self.category(cont)
        if cat == 'map' or (cat == 'view' and cont.kind == 'keys'):
            if cat == 'view':
                cont = cont.parts[0]
            c = self.map_content(cont)
            if c.spine is not None:
                return self.any_eq([k for k, _ in c.spine], x, key=True)
            return self.bool_(c.dom[self.keyterm(x)])
        if cat == 'set':
            c = self.set_content_of(cont)
            if c.spine is not None:
                return self.any_eq(c.spine, x, key=True)
            return self.bool_(c.dom[self.keyterm(x)])
        if cat == 'str' or (cat == 'host' and isinstance(cont, str)):
            return self.str_method(cont, '__contains__', [x], {})
        seq = self.iterate(cont)
        if seq[0] == 'spine':
            return self.any_eq(seq[1], x)
        from . import loops
        n, el = seq[1], seq[2]
        return loops.exists_eq(self, n, el, x)

    def any_eq(self, items, x, key=False):
        if concrete(x) and all(concrete(i) for i in items):
            hx = to_host(x)
            try:
                return any(to_host(i) is hx or to_host(i) == hx for i in items)
            except TypeError:
                self.raise_(TypeError)
        fs = []
        for i in items:
            r = self.key_eq(i, x) if key else self.eq_elem(i, x)
            if r is True:
                return True
            if r is False:
                continue
            fs.append(Val.b(r.t))
        if not fs:
            return False
        return self.bool_(z3.Or(fs))

    def getitem(self, v, i):
        ctx = self.ctx
        if isinstance(v, SV):
            custom = {c for c in ctx.candidates(v)
                      if isinstance(self.static(c, '__getitem__'), types.FunctionType)}
            if custom and self.decide(ctx.type_test(v, lambda c: c in custom)):
                return self.call(self.getattr(v, '__getitem__'), [i])
        if isinstance(v, type) and not isinstance(v, enum.EnumMeta):
            return self.native(operator.getitem, [v, i], {})
        if isinstance(v, enum.EnumMeta):
            return self.native(operator.getitem, [v, i], {})
        return self.builtin_getitem(v, i)

    def builtin_getitem(self, v, i):
        ctx = self.ctx
        cat = self.category(v)
        if cat == 'map':
            r = self.dict_get(v, i)
            if r is MISSING:
                self.raise_(KeyError, i)
            return r
        if cat == 'seq':
            return self.seq_getitem(self.seq_content(v), i, v)
        if cat in ('str', 'host'):
            if concrete(v) and (concrete(i) and not isinstance(i, slice) or isinstance(i, slice)
                                and all(concrete(x) for x in (i.start, i.stop, i.step))):
                return self.native(operator.getitem, [v, i], {})
            if isinstance(i, slice) and all(concrete(x) for x in (i.start, i.stop, i.step)):
                f = _strfuns.setdefault(('slice', str(i)),
                                        z3.Function(f'str_slice_{i.start}_{i.stop}_{i.step}',
                                                    Str, Str))
                t = self.str_term(v)
                r = f(t)
                if ctx.text_hook is not None:
                    ctx.text_hook(ctx, '__getitem__', [i], [t], r)
                return SV(Val.str(r))
            raise Unsupported("string indexing")
        if cat is None:
            self.raise_(TypeError, "not subscriptable")
        raise Unsupported(f"indexing of {cat}")

    def index_term(self, i, n):
        """Resolve an index against a length: returns an int term in range, or raises."""
        ctx = self.ctx
        it = z3.IntVal(i) if isinstance(i, int) else (
            self.numeric_term(i)[1] if ctx.candidates(i) <= {int, bool} else None)
        if it is None:
            if self.decide(ctx.type_test(i, lambda c: c in (int, bool))):
                it = self.numeric_term(i)[1]
            else:
                self.raise_(TypeError, "index")
        if ctx.branch(z3.And(0 <= it, it < n)):
            return z3.simplify(it)
        if ctx.branch(z3.And(it < 0, it >= -n)):
            return z3.simplify(n + it)
        self.raise_(IndexError)

    def seq_getitem(self, c, i, v=None):
        ctx = self.ctx
        if isinstance(i, slice):
            if c.spine is not None and all(concrete(x) for x in (i.start, i.stop, i.step)):
                items = c.spine[i]
                if isinstance(v, STuple) or type(v) is tuple:
                    return STuple(items)
                return ctx.new_list(items)
            a, b = self.slice_bounds(i, ctx.seq_terms(c)[0])
            n, arr = ctx.seq_terms(c)
            j = z3.Int('j!sl')
            return ctx.new_seq(z3.simplify(b - a), z3.Lambda([j], arr[j + a]))
        if c.spine is not None and isinstance(i, int):
            try:
                return c.spine[i]
            except IndexError:
                self.raise_(IndexError)
        n, arr = ctx.seq_terms(c)
        if not isinstance(i, (int, SV)):
            self.raise_(TypeError, "index")
        t = self.index_term(i, n)
        r = self.elem(arr, t)
        shape = ctx.list_shapes.get(v.t.get_id()) if isinstance(v, SV) else None
        if shape is not None and isinstance(r, SV):
            shape.elem_facts(ctx, v, r)
        return r

    def slice_bounds(self, s, n):
        if s.step is not None and s.step != 1:
            raise Unsupported("extended slice")

        def clamp(x, dflt):
            if x is None:
                return dflt
            k, t = self.numeric_term(x)
            if k != 'int':
                self.raise_(TypeError, "slice")
            return z3.If(t < 0, z3.If(t + n < 0, z3.IntVal(0), t + n), z3.If(t > n, n, t))
        a = clamp(s.start, z3.IntVal(0))
        b = clamp(s.stop, n)
        return z3.simplify(a), z3.simplify(z3.If(b < a, a, b))

    def setitem(self, v, i, val):
        ctx = self.ctx
        if isinstance(v, SV):
            custom = {c for c in ctx.candidates(v)
                      if isinstance(self.static(c, '__setitem__'), types.FunctionType)}
            if custom and self.decide(ctx.type_test(v, lambda c: c in custom)):
                self.call(self.getattr(v, '__setitem__'), [i, val])
                return
        if not isinstance(v, SV):
            hook = getattr(ctx, 'host_setitem', None)
            if hook and hook(self, v, i, val):
                return
            if isinstance(v, (STuple, tuple, str)):
                self.raise_(TypeError, "does not support item assignment")
            raise Unsupported("assignment into a host container")
        self.builtin_setitem(v, i, val)

    def builtin_setitem(self, v, i, val):
        ctx = self.ctx
        cat = self.category(v)
        if cat == 'map':
            self.dict_set(v, i, val)
        elif cat == 'seq':
            if ctx.candidates(v) & {tuple, AnyIterable}:
                if self.decide(ctx.type_test(v, lambda c: c in (tuple, AnyIterable))):
                    self.raise_(TypeError, "item assignment")
            c = self.seq_content(v)
            if isinstance(i, slice):
                s = self.iterate(val)
                if s[0] == 'spine':
                    cv = CSeq(spine=tuple(s[1]))
                else:
                    j = z3.Int('j!sv')
                    cv = CSeq(n=s[1], arr=z3.Lambda([j], self.lift_elem(s[2], j)))
                n, arr = ctx.seq_terms(c)
                a, b = self.slice_bounds(i, n)
                nv, av = ctx.seq_terms(cv)
                j = z3.Int('j!ss')
                new = z3.Lambda([j], z3.If(j < a, arr[j],
                                           z3.If(j < a + nv, av[j - a], arr[j - a - nv + b])))
                ctx.set_content(v, CSeq(n=z3.simplify(n - (b - a) + nv), arr=new))
                return
            if c.spine is not None and isinstance(i, int):
                items = list(c.spine)
                if not -len(items) <= i < len(items):
                    self.raise_(IndexError)
                items[i] = val
                ctx.set_content(v, CSeq(spine=tuple(items)))
                return
            n, arr = ctx.seq_terms(c)
            t = self.index_term(i, n)
            ctx.set_content(v, CSeq(n=n, arr=z3.Store(arr, t, ctx.lift(val))))
        else:
            self.raise_(TypeError, "item assignment")

    def lift_elem(self, el, j):
        v = el(j)
        return self.ctx.lift(v)

    def delitem(self, v, i):
        ctx = self.ctx
        if isinstance(v, SV):
            custom = {c for c in ctx.candidates(v)
                      if isinstance(self.static(c, '__delitem__'), types.FunctionType)}
            if custom and self.decide(ctx.type_test(v, lambda c: c in custom)):
                self.call(self.getattr(v, '__delitem__'), [i])
                return
        self.builtin_delitem(v, i)

    def builtin_delitem(self, v, i):
        ctx = self.ctx
        cat = self.category(v)
        if cat == 'map':
            if self.dict_get(v, i) is MISSING:
                self.raise_(KeyError, i)
            self.dict_del(v, i)
        elif cat == 'seq':
            c = self.seq_content(v)
            if isinstance(i, slice):
                self.builtin_setitem(v, i, STuple(()))
                return
            if c.spine is not None and isinstance(i, int):
                items = list(c.spine)
                if not -len(items) <= i < len(items):
                    self.raise_(IndexError)
                del items[i]
                ctx.set_content(v, CSeq(spine=tuple(items)))
                return
            n, arr = ctx.seq_terms(c)
            t = self.index_term(i, n)
            self.seq_delete(v, n, arr, t)
        else:
            self.raise_(TypeError)

    def seq_delete(self, v, n, arr, t):
        """Delete at position t; the new array is an uninterpreted array with pointwise facts."""
        ctx = self.ctx
        new = ctx.fresh(SeqArr, 'del')
        j = z3.Int('j!del')
        def at(q):
            return z3.And(z3.Implies(q < t, new[q] == arr[q]),
                          z3.Implies(q >= t, new[q] == arr[q + 1]))
        ctx.assume(z3.ForAll([j], at(j), patterns=[new[j]]))
        for warr, idx in list(ctx.witnesses):
            if warr.eq(arr):
                for q in (idx, z3.simplify(idx - 1)):
                    ctx.assume(at(q))
                    ctx.witnesses.append((new, q))
        ctx.set_content(v, CSeq(n=z3.simplify(n - 1), arr=new))
        ctx.events.append(('list-del', ctx.addr(v), t))

    # dict primitives ------------------------------------------------
    def dict_get(self, v, k):
        """Value for key k, or MISSING (forks)."""
        c = self.map_content(v)
        if c.spine is not None:
            for kk, x in c.spine:
                if self.decide(self.key_eq(kk, k)):
                    return x
            return MISSING
        t = self.keyterm(k)
        self.ctx.inst_map(c.dom, t)
        if self.ctx.branch(c.dom[t]):
            r = self.ctx.sharpen(self.ctx.unlift(z3.Select(c.map, t)))
            shape = self.ctx.list_shapes.get(v.t.get_id()) if isinstance(v, SV) else None
            if shape is not None and isinstance(r, SV):
                shape.value_facts(self.ctx, v, r)
            return r
        return MISSING

    def dict_set(self, v, k, x):
        ctx = self.ctx
        c = self.map_content(v)
        if c.spine is not None:
            self.keyterm(k)
            items = list(c.spine)
            for i, (kk, _) in enumerate(items):
                if self.decide(self.key_eq(kk, k)):
                    items[i] = (kk, x)
                    ctx.set_content(v, CMap(spine=tuple(items)))
                    return
            items.append((k, x))
            ctx.set_content(v, CMap(spine=tuple(items)))
            return
        t = self.keyterm(k)
        ctx.set_content(v, CMap(dom=z3.Store(c.dom, t, z3.BoolVal(True)),
                                map=z3.Store(c.map, t, ctx.lift(x))))

    def dict_del(self, v, k):
        ctx = self.ctx
        c = self.map_content(v)
        if c.spine is not None:
            items = [p for p in c.spine if not self.decide(self.key_eq(p[0], k))]
            ctx.set_content(v, CMap(spine=tuple(items)))
            return
        t = self.keyterm(k)
        ctx.set_content(v, CMap(dom=z3.Store(c.dom, t, z3.BoolVal(False)), map=c.map))

    def dict_pairs(self, d):
        c = self.map_content(d)
        if c.spine is None:
            raise Unsupported("** of an unbounded mapping")
        return list(c.spine)

    def dict_update(self, v, other):
        ctx = self.ctx
        cat = self.category(other)
        if cat == 'map':
            o = self.map_content(other)
            if o.spine is not None:
                for k, x in o.spine:
                    self.dict_set(v, k, x)
                return
            c = self.map_content(v)
            if c.spine is not None and not c.spine:
                ctx.set_content(v, CMap(dom=o.dom, map=o.map))
                return
            d1, m1 = ctx.map_terms(c)
            k = z3.Const('k!up', Val)
            dom, mp = ctx.fresh(DomArr, 'dom'), ctx.fresh(MapArr, 'map')
            od, om = o.dom, o.map

            def dfact(q):
                return dom[q] == z3.Or(d1[q], od[q])
            olds = (d1, od)

            def hook(q):
                for d in olds:
                    ctx.inst_map(d, q)
                return [dfact(q), mp[q] == z3.If(od[q], om[q], m1[q])]
            k = z3.Const('k!up', Val)
            if not ctx.ground_maps:
                ctx.assume(z3.ForAll([k], z3.And(*hook(k)), patterns=[dom[k]]))
            ctx.map_hooks.append((dom, hook))
            ctx.set_content(v, CMap(dom=dom, map=mp))
            return
        s = self.iterate(other)
        if s[0] != 'spine':
            raise Unsupported("dict update from an unbounded iterable of pairs")
        for p in s[1]:
            k, x = self.unpack(p, 2)
            self.dict_set(v, k, x)

    # set primitives --------------------------------------------------
    def make_set(self, items, cls=set):
        s = self.ctx.alloc(cls)
        self.ctx.set_content(s, CSet(spine=()))
        for x in items:
            self.set_add(s, x)
        return s

    def set_add(self, v, x):
        ctx = self.ctx
        c = self.set_content_of(v)
        t = self.keyterm(x)
        if c.spine is not None:
            if isinstance(x, SV) or any(isinstance(y, (SV, STuple)) for y in c.spine):
                for y in c.spine:
                    if self.decide(self.key_eq(y, x)):
                        return
            elif self.any_eq(c.spine, x, key=True) is True:
                return
            ctx.set_content(v, CSet(spine=c.spine + (x,)))
            return
        ctx.set_content(v, CSet(dom=z3.Store(c.dom, t, z3.BoolVal(True))))

    def seq_concat(self, a, b):
        ctx = self.ctx
        if a.spine is not None and b.spine is not None:
            return CSeq(spine=a.spine + b.spine)
        n, x = ctx.seq_terms(a)
        m, y = ctx.seq_terms(b)
        if b.spine is not None:
            arr = x
            for i, v in enumerate(b.spine):
                arr = z3.Store(arr, z3.simplify(n + i), ctx.lift(v))
            return CSeq(n=z3.simplify(n + m), arr=arr)
        j = z3.Int('j!cat')
        return CSeq(n=z3.simplify(n + m), arr=z3.Lambda([j], z3.If(j < n, x[j], y[j - n])))

    def to_seq(self, v):
        """A CSeq with the elements of an iterable."""
        s = self.iterate(v)
        if s[0] == 'spine':
            return CSeq(spine=tuple(s[1]))
        if isinstance(s[3], SV) and self.category(s[3]) == 'seq' and not isinstance(v, SIter) \
                and not isinstance(v, SGen):
            c = self.seq_content(s[3])
            return CSeq(spine=c.spine, n=c.n, arr=c.arr)
        j = z3.Int('j!seq')
        arr = z3.Lambda([j], self.lift_elem(s[2], j))
        self.ctx.memo[('element', arr.get_id())] = (arr, s[2])
        return CSeq(n=s[1], arr=arr)

    # ------------------------------------------------------------ builtin methods
    def call_builtin_method(self, f, args, kwargs):
        v, kind, name = f.self_, f.kind, f.name
        h = self.ctx.func_contracts.get((kind, name))
        if h is not None:
            return h(self, [v] + list(args), kwargs)
        m = getattr(self, f'm_{kind}_{name.strip("_") if name.startswith("__") else name}', None)
        if m is not None:
            return m(v, *args, **kwargs)
        if kind == 'str':
            return self.str_method(v, name, args, kwargs)
        if kind in ('bool', 'int', 'float', 'frozenset', 'tuple', 'list', 'set', 'dict') \
                and concrete(v) and all(concrete(a) for a in args) and not isinstance(v, SV):
            return self.native(getattr(to_host(v), name), args, kwargs)
        if kind == 'object':
            if name == '__init__':
                return None
            if name == '__eq__':
                return self.is_(v, args[0])
            if name == '__hash__':
                return SV(Val.int(self.id_term(v)))
            if name == '__getattribute__':
                if not isinstance(args[0], str):
                    raise Unsupported("symbolic attribute name")
                return self.getattr(v, args[0])
            if name == '__setattr__':
                return self.setattr(v, args[0], args[1])
            if name == '__ne__':
                return self.not_(self.eq(v, args[0]))
        raise Unsupported(f"method {kind}.{name}")

    # list
    def m_list_append(self, v, x):
        c = self.seq_content(v)
        self.ctx.set_content(v, self.seq_concat(c, CSeq(spine=(x,))))

    def m_list_extend(self, v, it):
        add = self.to_seq(it)
        self.ctx.set_content(v, self.seq_concat(self.seq_content(v), add))

    def m_list_iadd(self, v, it):
        self.m_list_extend(v, it)
        return v

    def m_list_init(self, v, it=STuple(())):
        self.ctx.set_content(v, self.to_seq(it))

    def m_list_insert(self, v, i, x):
        ctx = self.ctx
        c = self.seq_content(v)
        if c.spine is not None and isinstance(i, int):
            items = list(c.spine)
            items.insert(i, x)
            ctx.set_content(v, CSeq(spine=tuple(items)))
            return
        n, arr = ctx.seq_terms(c)
        k, t = self.numeric_term(i)
        if k != 'int':
            self.raise_(TypeError)
        p = z3.simplify(z3.If(t < 0, z3.If(t + n < 0, z3.IntVal(0), t + n), z3.If(t > n, n, t)))
        j = z3.Int('j!ins')
        xt = ctx.lift(x)
        ctx.set_content(v, CSeq(n=z3.simplify(n + 1), arr=z3.Lambda([j], z3.If(
            j < p, arr[j], z3.If(j == p, xt, arr[j - 1])))))

    def m_list_setitem(self, v, i, x):
        self.builtin_setitem(v, i, x)

    def m_list_getitem(self, v, i):
        return self.builtin_getitem(v, i)

    def m_list_delitem(self, v, i):
        self.builtin_delitem(v, i)

    def m_list_len(self, v):
        return self.len_(v)

    def m_list_contains(self, v, x):
        return self.contains(v, x)

    def m_list_iter(self, v):
        return SIter('iter', [v])

    def m_list_clear(self, v):
        self.ctx.set_content(v, CSeq(spine=()))

    def m_list_copy(self, v):
        r = self.ctx.alloc(list)
        c = self.seq_content(v)
        self.ctx.set_content(r, CSeq(spine=c.spine, n=c.n, arr=c.arr))
        return r

    def m_list_pop(self, v, i=-1):
        ctx = self.ctx
        c = self.seq_content(v)
        if c.spine is not None and isinstance(i, int):
            items = list(c.spine)
            if not -len(items) <= i < len(items):
                self.raise_(IndexError)
            x = items.pop(i)
            ctx.set_content(v, CSeq(spine=tuple(items)))
            ctx.events.append(('list-pop', ctx.addr(v), x))
            return x
        n, arr = ctx.seq_terms(c)
        if isinstance(i, int) and i == -1:
            if ctx.branch(n <= 0):
                self.raise_(IndexError)
            x = self.elem(arr, z3.simplify(n - 1))
            ctx.set_content(v, CSeq(n=z3.simplify(n - 1), arr=arr))
        else:
            t = self.index_term(i, n)
            x = self.elem(arr, t)
            self.seq_delete(v, n, arr, t)
        ctx.events.append(('list-pop', ctx.addr(v), x))
        return x

    def m_list_remove(self, v, x):
        ctx = self.ctx
        c = self.seq_content(v)
        if c.spine is not None:
            for i, y in enumerate(c.spine):
                if self.decide(self.eq_elem(y, x)):
                    ctx.set_content(v, CSeq(spine=c.spine[:i] + c.spine[i + 1:]))
                    return
            self.raise_(ValueError)
        from . import loops
        n, arr = ctx.seq_terms(c)
        hit = loops.first_eq(self, n, self.iterate(v)[2], x)
        if hit is None:
            self.raise_(ValueError)
        self.seq_delete(v, n, arr, hit)

    def m_list_index(self, v, x):
        from . import loops
        seq = self.iterate(v)
        if seq[0] == 'spine':
            for i, y in enumerate(seq[1]):
                if self.decide(self.eq_elem(y, x)):
                    return i
            self.raise_(ValueError)
        hit = loops.first_eq(self, seq[1], seq[2], x)
        if hit is None:
            self.raise_(ValueError)
        return SV(Val.int(hit))

    def m_list_reverse(self, v):
        c = self.seq_content(v)
        if c.spine is None:
            raise Unsupported("reverse")
        self.ctx.set_content(v, CSeq(spine=tuple(reversed(c.spine))))

    m_tuple_len = m_list_len
    m_tuple_iter = m_list_iter
    m_tuple_contains = m_list_contains
    m_tuple_getitem = m_list_getitem

    # dict
    def m_dict_getitem(self, v, k):
        return self.builtin_getitem(v, k)

    def m_dict_setitem(self, v, k, x):
        self.dict_set(v, k, x)

    def m_dict_delitem(self, v, k):
        self.builtin_delitem(v, k)

    def m_dict_contains(self, v, k):
        c = self.map_content(v)
        if c.spine is not None:
            return self.any_eq([p[0] for p in c.spine], k, key=True)
        t = self.keyterm(k)
        self.ctx.inst_map(c.dom, t)
        return self.bool_(c.dom[t])

    def m_dict_get(self, v, k, default=None):
        r = self.dict_get(v, k)
        return default if r is MISSING else r

    def m_dict_len(self, v):
        c = self.map_content(v)
        if c.spine is not None:
            return len(c.spine)
        self.dom_order(c.dom)
        return SV(Val.int(DSIZE(c.dom)))

    def m_dict_iter(self, v):
        return SIter('keys', [v])

    def m_dict_keys(self, v):
        return SIter('keys', [v])

    def m_dict_values(self, v):
        return SIter('values', [v])

    def m_dict_items(self, v):
        return SIter('items', [v])

    def m_dict_clear(self, v):
        self.ctx.set_content(v, CMap(spine=()))

    def m_dict_copy(self, v):
        r = self.ctx.alloc(dict)
        c = self.map_content(v)
        self.ctx.set_content(r, CMap(spine=c.spine, dom=c.dom, map=c.map))
        return r

    def m_dict_pop(self, v, k, default=MISSING):
        c = self.map_content(v)
        if default is None and c.spine is None:
            # removing an absent key changes nothing
            t = self.keyterm(k)
            self.ctx.inst_map(c.dom, t)
            r = SV(z3.If(c.dom[t], z3.Select(c.map, t), self.ctx.lift(None)))
            self.dict_del(v, k)
            return r
        r = self.dict_get(v, k)
        if r is MISSING:
            if default is MISSING:
                self.raise_(KeyError, k)
            return default
        self.dict_del(v, k)
        return r

    def m_dict_popitem(self, v):
        c = self.map_content(v)
        ctx = self.ctx
        if c.spine is not None:
            if not c.spine:
                self.raise_(KeyError)
            ctx.set_content(v, CMap(spine=c.spine[:-1]))
            return STuple(c.spine[-1])
        n, arr = self.dom_order(c.dom)
        if ctx.branch(n == 0):
            self.raise_(KeyError)
        k = self.iterate(v)[2](z3.simplify(n - 1))
        x = ctx.unlift(z3.Select(c.map, ctx.lift(k)))
        self.dict_del(v, k)
        return STuple((k, x))

    def m_dict_update(self, v, *others, **kw):
        for o in others:
            self.dict_update(v, o)
        for k, x in kw.items():
            self.dict_set(v, k, x)

    def m_dict_setdefault(self, v, k, default=None):
        r = self.dict_get(v, k)
        if r is MISSING:
            self.dict_set(v, k, default)
            return default
        return r

    def m_dict_ior(self, v, o):
        self.dict_update(v, o)
        return v

    def m_dict_init(self, v, *others, **kw):
        self.m_dict_update(v, *others, **kw)

    # set
    def m_set_add(self, v, x):
        self.set_add(v, x)

    def m_set_ior(self, v, o):
        r = self.set_op('|', v, o)
        self.ctx.set_content(v, self.set_content_of(r))
        return v

    def m_set_contains(self, v, x):
        return self.contains(v, x)

    def m_set_len(self, v):
        return self.len_(v)

    def m_set_iter(self, v):
        return SIter('iter', [v])

    def m_set_copy(self, v):
        c = self.set_content_of(v)
        r = self.ctx.alloc(set)
        self.ctx.set_content(r, CSet(spine=c.spine, dom=c.dom))
        return r

    def m_set_update(self, v, *others):
        for o in others:
            o2 = self.b_set(o)
            self.m_set_ior(v, o2)

    def m_set_union(self, v, *others):
        r = self.m_set_copy(v)
        self.m_set_update(r, *others)
        return r

    m_frozenset_union = m_set_union

    def m_set_difference(self, v, o):
        return self.set_op('-', v, self.b_set(o))

    def m_set_intersection(self, v, o):
        return self.set_op('&', v, self.b_set(o))

    def m_set_issubset(self, v, o):
        return self.order('<=', v, self.b_set(o))

    def m_set_issuperset(self, v, o):
        return self.order('>=', v, self.b_set(o))

    m_frozenset_issubset = m_set_issubset
    m_frozenset_issuperset = m_set_issuperset

    def m_set_discard(self, v, x):
        c = self.set_content_of(v)
        d = self.ctx.set_term(c)
        self.ctx.set_content(v, CSet(dom=z3.Store(d, self.keyterm(x), z3.BoolVal(False))))

    # ------------------------------------------------------------ builtin functions
    def id_term(self, v):
        t = self.ctx.lift(v)
        r = IDOF(t)
        key = ('id', t.get_id())
        if key not in self.ctx.memo:
            self.ctx.memo[key] = t
            self.ctx.assume(UNID(r) == t)
        return r

    def b_isinstance(self, v, cls):
        cls = self.force(cls)
        cls = to_host(cls) if concrete(cls) else cls
        if isinstance(cls, SV):
            self.ctx.touch(self.ctx.lift(v)) if isinstance(v, SV) else None
            t = clsof(v.t) if isinstance(v, SV) else z3.IntVal(UNIVERSE.cid(
                next(iter(self.ctx.candidates(v)))))
            return self.bool_(ISI(t, cls.t))
        if isinstance(v, SMock):
            return v.methods.get('__isinstance__', lambda i, c: False)(self, cls)
        try:
            return self.ctx.isinstance_(v, cls)
        except TypeError:
            self.raise_(TypeError)

    def b_issubclass(self, c, cls):
        c, cls = self.force(c), self.force(cls)
        if not isinstance(c, type):
            raise Unsupported("issubclass of a symbolic class")
        return issubclass(c, to_host(cls))

    def b_type(self, v, *a):
        if a:
            raise Unsupported("dynamic class creation")
        if isinstance(v, STuple):
            return tuple
        if isinstance(v, SExc):
            return v.cls
        if len(self.ctx.candidates(v)) > 1:
            return LazyType(v)
        return self.ctx.resolve_class(v)

    def b_len(self, v):
        return self.len_(v)

    def b_id(self, v):
        return SV(Val.int(self.id_term(v)))

    def b_hash(self, v):
        if concrete(v):
            return self.native(hash, [v], {})
        if isinstance(v, SV):
            custom = {c for c in self.ctx.candidates(v)
                      if isinstance(self.static(c, '__hash__'), types.FunctionType)}
            if custom and self.decide(self.ctx.type_test(v, lambda c: c in custom)):
                return self.call(self.getattr(v, '__hash__'), []) \
                    if False else self.call(self.static(self.ctx.resolve_class(v), '__hash__'),
                                            [v])
        if isinstance(v, SV) and self.ctx.candidates(v) == {tuple} and \
                self.ctx.ctor(v.t) == 'ref' and not self.ctx.branch(TUPLE_HASHABLE(v.t)):
            self.raise_(TypeError, "unhashable element of a tuple")
        f = z3.Function('HASH', Val, I)
        return SV(Val.int(f(self.keyterm(v))))

    def b_callable(self, v):
        if isinstance(v, (Closure, BoundMethod, BuiltinMethod, SMock)):
            return True
        if isinstance(v, SV):
            if v.t.sort() == Val and self.ctx.candidates(v) <= {type(None), bool, int, float,
                                                                 str, list, dict, tuple}:
                return False
            return self.bool_(CALLABLE(v.t))
        return callable(v)

    def b_getattr(self, v, name, default=MISSING):
        if not isinstance(name, str):
            raise Unsupported("symbolic attribute name")
        try:
            return self.getattr(v, name)
        except PyRaise as e:
            if default is not MISSING and issubclass(e.exc.cls, AttributeError):
                return default
            raise

    def b_hasattr(self, v, name):
        try:
            self.getattr(v, name)
            return True
        except PyRaise as e:
            if issubclass(e.exc.cls, AttributeError):
                return False
            raise

    def b_setattr(self, v, name, x):
        if not isinstance(name, str):
            raise Unsupported("symbolic attribute name")
        self.setattr(v, name, x)

    def b_vars(self, v):
        return self.getattr(v, '__dict__')

    def b_str(self, v=''):
        return self.to_str(v)

    def b_repr(self, v):
        return self.opaque_str('repr')

    def b_print(self, *a, **k):
        return None

    def b_bool(self, v=False):
        return self.truth(v)

    def b_float(self, v=0.0):
        ctx = self.ctx
        if concrete(v):
            return self.native(float, [v], {})
        if isinstance(v, SV) and str in ctx.candidates(v):
            if self.decide(ctx.type_test(v, lambda c: c is str)):
                if ctx.choose(2) == 0:
                    self.raise_(ValueError)
                r = ctx.fresh(Val, 'parsed')
                ctx.narrow(r, [float])
                return SV(r)
        k, t = self.numeric_term(v)
        if k in ('int', 'flt'):
            return self.num_value('flt', self._real(k, t))
        return v

    def b_int(self, v=0):
        ctx = self.ctx
        if concrete(v):
            return self.native(int, [v], {})
        if isinstance(v, SV) and str in ctx.candidates(v):
            if self.decide(ctx.type_test(v, lambda c: c is str)):
                if ctx.choose(2) == 0:
                    self.raise_(ValueError)
                return SV(Val.int(ctx.fresh(I, 'parsed')))
        k, t = self.numeric_term(v)
        if k == 'int':
            return self.num_value('int', t)
        if k == 'flt':
            return self.num_value('int', z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))
        self.raise_(OverflowError if k == 'inf' else ValueError)

    def b_isfinite(self, v):
        k, _ = self.numeric_term(v)
        return k in ('int', 'flt')

    def b_isnan(self, v):
        k, _ = self.numeric_term(v)
        return k == 'nan'

    def b_isclose(self, a, b, **kw):
        if concrete(a) and concrete(b):
            return self.native(math.isclose, [a, b], kw)
        k1, t1 = self.numeric_term(a)
        k2, t2 = self.numeric_term(b)
        if k1 not in ('int', 'flt') or k2 not in ('int', 'flt'):
            return False if k1 != k2 else self.bool_(self.ctx.fresh(B, 'close'))
        x, y = self._real(k1, t1), self._real(k2, t2)
        rel = real_of(kw.get('rel_tol', 1e-9))
        abs_ = real_of(kw.get('abs_tol', 0.0))
        ab = lambda e: z3.If(e >= 0, e, -e)  # noqa: E731
        mx = z3.If(ab(x) >= ab(y), ab(x), ab(y))
        lim = z3.If(rel * mx >= abs_, rel * mx, abs_)
        return self.bool_(ab(x - y) <= lim)

    def b_abs(self, v):
        if concrete(v):
            return self.native(abs, [v], {})
        k, t = self.numeric_term(v)
        if k == 'nan':
            return v
        if k == 'inf':
            return float('inf')
        return self.num_value(k, z3.If(t >= 0, t, -t))

    def b_list(self, it=STuple(())):
        r = self.ctx.alloc(list)
        self.ctx.set_content(r, self.to_seq(it))
        return r

    def b_tuple(self, it=STuple(())):
        c = self.to_seq(it)
        if c.spine is not None:
            return STuple(c.spine)
        r = self.ctx.alloc(tuple)
        self.ctx.set_content(r, c)
        return r

    def b_dict(self, *others, **kw):
        d = self.ctx.new_dict()
        if len(others) == 1 and self.category(others[0]) == 'map':
            c = self.map_content(others[0])
            self.ctx.set_content(d, CMap(spine=c.spine, dom=c.dom, map=c.map))
            others = ()
        self.m_dict_update(d, *others, **kw)
        return d

    def b_set(self, it=STuple(()), cls=set):
        ctx = self.ctx
        cat = self.category(it)
        if cat in ('map', 'set'):
            c = self.map_content(it) if cat == 'map' else self.set_content_of(it)
            r = ctx.alloc(cls)
            if c.spine is not None:
                ctx.set_content(r, CSet(spine=tuple(p[0] for p in c.spine) if cat == 'map'
                                        else c.spine))
            else:
                ctx.set_content(r, CSet(dom=c.dom))
            return r
        s = self.iterate(it)
        if s[0] == 'spine':
            return self.make_set(s[1], cls)
        r = ctx.alloc(cls)
        dom = ctx.fresh(DomArr, 'set')
        k = z3.Const('k!set', Val)
        j = z3.Int('j!set')
        pos = ctx.fresh_fun('setpos', Val, I)
        e = self.lift_elem(s[2], j)
        ctx.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < s[1]), dom[e])))
        ep = z3.substitute(e, (j, pos(k)))
        ctx.assume(z3.ForAll([k], z3.Implies(dom[k], z3.And(
            0 <= pos(k), pos(k) < s[1], ep == k)), patterns=[dom[k]]))
        ctx.set_content(r, CSet(dom=dom))
        return r

    def b_frozenset(self, it=STuple(())):
        return self.b_set(it, frozenset)

    def b_enumerate(self, it, start=0):
        if start != 0:
            raise Unsupported("enumerate start")
        return SIter('enumerate', [it])

    def b_zip(self, *its):
        return SIter('zip', its)

    def b_reversed(self, it):
        return SIter('reversed', [it])

    def b_iter(self, it):
        return SIter('iter', [it])

    def b_range(self, *a):
        if all(isinstance(x, int) for x in a):
            return STuple(range(*a))
        if len(a) == 1:
            k, t = self.numeric_term(a[0])
            if k == 'int':
                ctx = self.ctx
                j = z3.Int('j!rng')
                n = z3.simplify(z3.If(t < 0, z3.IntVal(0), t))
                return ctx.new_seq(n, z3.Lambda([j], Val.int(j)))
        raise Unsupported("range")

    def b_any(self, it):
        from . import loops
        return loops.any_all(self, it, True)

    def b_all(self, it):
        from . import loops
        return loops.any_all(self, it, False)

    def b_next(self, it, default=MISSING):
        from . import loops
        return loops.next_(self, it, default)

    def b_min(self, *a, **kw):
        return self.minmax('<', a, kw)

    def b_max(self, *a, **kw):
        return self.minmax('>', a, kw)

    def minmax(self, op, a, kw):
        ctx = self.ctx
        if set(kw) - {'default'}:
            raise Unsupported("min/max with key")
        if len(a) == 1:
            s = self.iterate(a[0])
            if s[0] != 'spine':
                from . import loops
                return loops.extremum(self, s, op, kw)
            items = s[1]
        else:
            items = list(a)
        if not items:
            if 'default' in kw:
                return kw['default']
            self.raise_(ValueError)
        best = items[0]
        for x in items[1:]:
            if self.decide(self.order(op, x, best)):
                best = x
        return best

    def b_sum(self, it, start=0):
        s = self.iterate(it)
        if s[0] == 'spine':
            r = start
            for x in s[1]:
                r = self.arith('+', r, x)
            return r
        from . import loops
        return loops.sum_(self, s, start)

    def b_sorted(self, it, *, key=None, reverse=False):
        h = getattr(self.ctx, 'sorted_hook', None)
        if h is not None:
            return h(self, it, key, reverse)
        s = self.iterate(it)
        if s[0] == 'spine' and key is None and all(concrete(x) for x in s[1]):
            return self.native(sorted, [tuple(to_host(x) for x in s[1])], {'reverse': reverse})
        if s[0] == 'spine' and len(s[1]) == 0:
            return self.ctx.new_list(())
        if s[0] == 'spine':
            # items with distinct concrete first components
            try:
                ks = [x.items[0] if isinstance(x, STuple) else x for x in s[1]]
                if key is None and all(isinstance(k, str) for k in ks) and \
                        len(set(ks)) == len(ks):
                    order = sorted(range(len(ks)), key=lambda i: ks[i], reverse=reverse)
                    return self.ctx.new_list([s[1][i] for i in order])
            except AttributeError:
                pass
        if s[0] == 'abs' and key is None:
            return self.sorted_abstract(s)
        if s[0] == 'abs' and reverse is False:
            return self.sorted_by_key(it, key)
        raise Unsupported("sorted")

    def sorted_by_key(self, it, key):
        """A permutation of the items in the order of their keys, which are numbers."""
        from .interp import Env
        ctx = self.ctx
        items = it
        env = Env(ctx)
        env.vars.update(key=key, items=items)
        keys = self.eval(ast.parse('[key(x) for x in items]', mode='eval').body, env)
        n, src = ctx.seq_terms(self.seq_content(items))
        m, ks = ctx.seq_terms(self.seq_content(keys))
        i, k = z3.Int('i!srt'), z3.Int('k!srt')
        j = ctx.fresh(I, 'j')
        self.instantiate_lemmas(ks, j)
        if not ctx.entails(z3.Implies(z3.And(0 <= j, j < n), Val.is_int(ks[j]))):
            raise Unsupported("sorting by keys that need not be integers")
        arr = ctx.fresh(SeqArr, 'sorted')
        to, back = ctx.fresh_fun('perm', I, I), ctx.fresh_fun('mrep', I, I)
        ctx.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(
            0 <= to(i), to(i) < n, back(to(i)) == i, arr[i] == src[to(i)])), patterns=[arr[i]]))
        ctx.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(
            0 <= back(i), back(i) < n, to(back(i)) == i)), patterns=[back(i)]))
        ctx.assume(z3.ForAll([i, k], z3.Implies(
            z3.And(0 <= i, i <= k, k < n), Val.i(ks[to(i)]) <= Val.i(ks[to(k)])),
            patterns=[z3.MultiPattern(to(i), to(k))]))
        ctx.memo[('sorted', arr.get_id())] = (arr, src, to, back, ks)
        return ctx.new_seq(n, arr)

    def sorted_abstract(self, s):
        """A sequence of texts in some order determined by its contents (for the elements of a set:
        by the set); the order itself is not modelled."""
        ctx = self.ctx
        n = s[1]
        j = ctx.fresh(I, 'j')
        e = self.lift_elem(s[2], j)
        if z3.is_select(e) and z3.is_app(e.arg(0)) and e.arg(0).decl().eq(KEYS):
            dom = e.arg(0).arg(0)
            named = ctx.memo.get(('named-of', dom.get_id()))
            member = dom[e] if named is None else z3.And(dom[e], z3.simplify(named[1][e]))
            ctx.assume(z3.Implies(z3.And(0 <= j, j < n), member))
        if not ctx.entails(z3.Implies(z3.And(0 <= j, j < n), Val.is_str(e))):
            raise Unsupported("sorting values that need not be texts")
        i, k = z3.Int('i!srt'), z3.Const('k!srt', Val)
        dom = e.arg(0).arg(0) if z3.is_select(e) and z3.is_app(e.arg(0)) and \
            e.arg(0).decl().eq(KEYS) and z3.simplify(n).eq(z3.simplify(DSIZE(e.arg(0).arg(0)))) \
            else None
        if dom is not None:
            arr = SORTEDKEYS(dom)
            ctx.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(
                dom[arr[i]], SKPOS(dom, arr[i]) == i)), patterns=[arr[i]]))
            ctx.assume(z3.ForAll([k], z3.Implies(dom[k], z3.And(
                0 <= SKPOS(dom, k), SKPOS(dom, k) < n, arr[SKPOS(dom, k)] == k)),
                patterns=[SKPOS(dom, k)]))
            return ctx.new_seq(n, arr)
        arr = ctx.fresh(SeqArr, 'sorted')
        to, back = ctx.fresh_fun('perm', I, I), ctx.fresh_fun('mrep', I, I)
        at = lambda x: z3.substitute(e, (j, x))  # noqa: E731
        ctx.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(
            0 <= to(i), to(i) < n, back(to(i)) == i, arr[i] == at(to(i)))), patterns=[arr[i]]))
        ctx.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(
            0 <= back(i), back(i) < n, to(back(i)) == i)), patterns=[back(i)]))
        return ctx.new_seq(n, arr)

    def b_uuid4(self):
        t = self.ctx.fresh(Val, 'uuid')
        self.ctx.narrow(t, [AnyObject])
        return SV(t)

    def b_map(self, f, *its):
        """map(f, it): the elements of (f(x) for x in it)."""
        if len(its) != 1:
            raise Unsupported("map over several iterables")
        return self.lazy("(f(x) for x in it)", f=f, it=its[0])

    def b_filter(self, f, it):
        """filter(f, it): the elements of (x for x in it if f(x))."""
        if f is None:
            return self.lazy("(x for x in it if x)", it=it)
        return self.lazy("(x for x in it if f(x))", f=f, it=it)

    def lazy(self, text, **names):
        from .interp import Env
        env = Env(self.ctx)
        env.vars.update(names)
        return self.eval(ast.parse(text, mode='eval').body, env)

    builtin_models = {}


for _n in ('isinstance issubclass type len id hash callable getattr hasattr setattr vars str repr '
           'print bool float int abs list tuple dict set frozenset enumerate zip reversed iter '
           'range any all next min max sum sorted map filter').split():
    Models.builtin_models[id(getattr(builtins, _n))] = getattr(Models, 'b_' + _n)
Models.builtin_models[id(math.isfinite)] = Models.b_isfinite
Models.builtin_models[id(math.isnan)] = Models.b_isnan
Models.builtin_models[id(math.isclose)] = Models.b_isclose
Models.builtin_models[id(uuid.uuid4)] = Models.b_uuid4

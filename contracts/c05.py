"""C05: typed lists only ever hold what they were declared to hold.

Every operation that can add elements, on a list in an arbitrary state satisfying the invariant (all
elements are of a declared type), with an arbitrary element, index or iterable and an arbitrary hook:
it either leaves the list as it was and raises, or stores exactly the given elements (each replaced
by its hook result) at the right places; a wrong-typed element always raises.
"""
import z3

from gemd.entity.file_link import FileLink
from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.object import IngredientRun
from gemd.entity.attribute import Condition, Parameter, Property, PropertyAndConditions
from gemd.entity.template import PropertyTemplate
from gemd.entity.template.base_template import BaseTemplate
from gemd.entity.template.has_condition_templates import HasConditionTemplates
from gemd.entity.template.has_parameter_templates import HasParameterTemplates
from gemd.entity.template.has_property_templates import HasPropertyTemplates
from gemd.entity.valid_list import ValidList
from gemd.entity.setters import validate_list

from pyvc.ctx import PyRaise
from pyvc.unit import unit, outcome
from pyvc.values import *  # noqa: F401,F403
from pyvc.values import UNIVERSE, Val, clsof, B, I, SExc

from .common import eq_contract, set_level
from .shapes import ATTR_TEMPLATES, BOUNDS, ENTITIES, GEMD, TABLE, ListOf

# one filter of each kind the library declares (a single scalar type, a single object type, several)
FILTERS = [(str,), (FileLink,), (IngredientRun, LinkByUID), (Condition, LinkByUID, list, tuple)]
HOOK = z3.Function('HOOK', Val, Val)
REFUSES = z3.Function('HOOK_REFUSES', Val, B)


def hook(x):
    """An arbitrary hook: refuses an element, or returns None or a replacement."""
    raise NotImplementedError


class Refused(Exception):
    pass


def hook_contract(types):
    def contract(interp, args, kwargs):
        ctx = interp.ctx
        t = ctx.lift(args[0])
        if ctx.branch(REFUSES(t)):
            raise PyRaise(SExc(Refused, ()))
        r = HOOK(t)
        ctx.touch(r)
        ctx.narrow(r, [type(None)] + sub(types))
        return SV(r)
    return contract


def sub(types):
    return [c for c in UNIVERSE.classes if issubclass(c, tuple(types))]


def isin(t, types):
    """The formula: t is an instance of one of the types."""
    return z3.Or([Val.is_none(t) if c is type(None) else clsof(t) == UNIVERSE.cid(c)
                  for c in sub(types)])


def stored(t, hooked):
    return z3.If(z3.And(hooked, z3.Not(Val.is_none(HOOK(t)))), HOOK(t), t)


class State:
    """A typed list, its filter and hook, and its contents at the start."""

    def __init__(self, ctx, interp, types=None):
        self.types = types or FILTERS[ctx.choose(len(FILTERS))]
        self.hooked = bool(ctx.choose(2))
        ctx.func_contracts[hook] = hook_contract(self.types)
        ctx.func_contracts.update(eq_contract())
        v = ctx.obj(ValidList, 'list')
        ctx.list_shapes[v.t.get_id()] = ListOf('list', *sub(self.types), content=self.types,
                                               trigger=hook if self.hooked else None)
        self.ctx, self.interp, self.v = ctx, interp, v
        self.n, self.arr = self.now()

    def now(self):
        return self.ctx.seq_terms(self.interp.seq_content(self.v))

    def stored(self, t):
        return stored(t, z3.BoolVal(self.hooked))

    def good(self, t):
        return isin(t, self.types)

    def unchanged(self, tag):
        n, arr = self.now()
        i = self.ctx.fresh(I, 'i')
        self.ctx.prove(f'{tag}: the length is as before', n == self.n)
        self.ctx.prove(f'{tag}: the elements are as before',
                       z3.Implies(z3.And(0 <= i, i < n), arr[i] == self.arr[i]))



def given(ctx, interp, st=None):
    """An iterable argument: (value, length, element at an index)."""
    way = ctx.choose(5 if st is not None else 4)
    if way == 0:
        src = ctx.obj(list, 'items')
    elif way == 1:
        src = ctx.obj(AnyIterator, 'one-shot iterator')
    elif way == 2:
        src = ctx.obj(ValidList, 'other')
        ctx.list_shapes[src.t.get_id()] = ListOf('other', *UNIVERSE.classes)
        if st is not None:
            ctx.assume(src.t != st.v.t)
    elif way == 3:
        src = STuple(tuple(ctx.any_value('item') for _ in range(ctx.choose(3))))
        arr = ctx.fresh(SeqArr, 'given')
        for i, x in enumerate(src.items):
            arr = z3.Store(arr, i, ctx.lift(x))
        return src, z3.IntVal(len(src.items)), arr
    else:
        src = st.v
    n, arr = ctx.seq_terms(interp.seq_content(src))
    return src, n, arr


def whole(ctx, n, arr, types, hooked):
    """Every given element is welcome (with a witness index to instantiate it at)."""
    i = z3.Int('i!ok')
    ok = isin(arr[i], types)
    if hooked:
        ok = z3.And(ok, z3.Not(REFUSES(arr[i])))
    ok = z3.Implies(z3.And(0 <= i, i < n), ok)
    if z3.is_int_value(n):
        return z3.And([z3.substitute(ok, (i, z3.IntVal(q))) for q in range(n.as_long())])
    ctx.element_lemmas.append((i, ok, None))
    return z3.ForAll([i], ok, patterns=[arr[i]])


def added(st, tag, lo, n, arr, now):
    """The elements from lo on are exactly the given ones, and all of a declared type."""
    ctx = st.ctx
    i = ctx.fresh(I, 'i')
    ctx.witnesses.append((arr, i))
    inside = z3.And(0 <= i, i < n)
    ctx.prove(f'{tag}: no element of another type is accepted', z3.Implies(inside, st.good(arr[i])))
    ctx.prove(f'{tag}: the given elements are stored in order',
              z3.Implies(inside, now[lo + i] == st.stored(arr[i])))


def kept(st, tag, lo, hi, now, shift=0):
    ctx = st.ctx
    i = ctx.fresh(I, 'i')
    ctx.prove(f'{tag}: the other elements keep their places',
              z3.Implies(z3.And(lo <= i, i < hi), now[i + shift] == st.arr[i]))


def single(st, ctx, interp, tag, op, at):
    """An operation adding one element x; at(n) is its index, None for a replacement."""
    x = ctx.any_value('x')
    kind, r = outcome(lambda: op(x))
    t = ctx.lift(x)
    good = z3.And(st.good(t), z3.Not(REFUSES(t))) if st.hooked else st.good(t)
    if kind == 'raise':
        ctx.cover('refused')
        st.unchanged(f'{tag} refused')
        return x, t, None
    ctx.cover('accepted')
    ctx.prove(f'{tag}: no element of another type is accepted', good)
    return x, t, st.now()


@unit('C05', 'append', covers=['refused', 'accepted'])
def u_append(ctx, interp):
    st = State(ctx, interp)
    x, t, now = single(st, ctx, interp, 'append',
                       lambda x: interp.call(interp.getattr(st.v, 'append'), [x]), None)
    if now is None:
        ctx.prove('append: a welcome element is accepted',
                  z3.Not(z3.And(st.good(t), z3.Not(REFUSES(t)))))
        return
    n, arr = now
    ctx.prove('append: one more element', n == st.n + 1)
    ctx.prove('append: the element is stored last', arr[st.n] == st.stored(t))
    kept(st, 'append', 0, st.n, arr)


@unit('C05', 'insert', covers=['refused', 'accepted'])
def u_insert(ctx, interp):
    st = State(ctx, interp)
    i = ctx.any_value('i', [int])
    x, t, now = single(st, ctx, interp, 'insert',
                       lambda x: interp.call(interp.getattr(st.v, 'insert'), [i, x]), None)
    if now is None:
        ctx.prove('insert: a welcome element is accepted',
                  z3.Not(z3.And(st.good(t), z3.Not(REFUSES(t)))))
        return
    n, arr = now
    k = Val.i(i.t)
    k = z3.If(k < 0, z3.If(k + st.n < 0, 0, k + st.n), z3.If(k > st.n, st.n, k))
    ctx.prove('insert: one more element', n == st.n + 1)
    ctx.prove('insert: the element is stored there', arr[k] == st.stored(t))
    kept(st, 'insert', 0, k, arr)
    kept(st, 'insert', k, st.n, arr, 1)


@unit('C05', 'item assignment', covers=['refused', 'accepted'])
def u_setitem(ctx, interp):
    st = State(ctx, interp)
    i = ctx.any_value('i', [int])
    x, t, now = single(st, ctx, interp, 'item assignment',
                       lambda x: interp.setitem(st.v, i, x), None)
    k = Val.i(i.t)
    if now is None:
        ctx.prove('item assignment: a welcome element at an existing place is accepted',
                  z3.Not(z3.And(st.good(t), z3.Not(REFUSES(t)), -st.n <= k, k < st.n)))
        return
    n, arr = now
    k = z3.If(k < 0, k + st.n, k)
    ctx.prove('item assignment: as many elements', n == st.n)
    ctx.prove('item assignment: the element is stored there',
              z3.And(0 <= k, k < st.n, arr[k] == st.stored(t)))
    j = ctx.fresh(I, 'j')
    ctx.prove('item assignment: the others stay',
              z3.Implies(z3.And(0 <= j, j < st.n, j != k), arr[j] == st.arr[j]))


def many(ctx, interp, tag, op):
    st = State(ctx, interp)
    src, n, arr = given(ctx, interp, st)
    ok = ctx.choose(2)
    if ok:
        ctx.assume(whole(ctx, n, arr, st.types, st.hooked))
    kind, r = outcome(lambda: op(st, src))
    if kind == 'raise':
        ctx.cover('refused')
        ctx.prove(f'{tag}: welcome elements are accepted', not ok)
        st.unchanged(f'{tag} refused')
        return
    ctx.cover('accepted')
    n2, arr2 = st.now()
    ctx.prove(f'{tag}: no element is lost', n2 == st.n + n)
    added(st, tag, st.n, n, arr, arr2)
    kept(st, tag, 0, st.n, arr2)
    return st, r


@unit('C05', 'extend', covers=['refused', 'accepted'])
def u_extend(ctx, interp):
    many(ctx, interp, 'extend', lambda st, src: interp.call(interp.getattr(st.v, 'extend'), [src]))


@unit('C05', 'in-place addition', covers=['refused', 'accepted'])
def u_iadd(ctx, interp):
    import operator
    r = many(ctx, interp, 'in-place addition',
             lambda st, src: interp.call(operator.iadd, [st.v, src])
             if False else interp.call(interp.getattr(st.v, '__iadd__'), [src]))
    if r:
        ctx.prove('in-place addition: the result is the list itself', ctx.lift(r[1]) == r[0].v.t)


@unit('C05', 'extending by something that is not iterable')
def u_noniter(ctx, interp):
    st = State(ctx, interp)
    x = ctx.any_value('x', [int, float, type(None), bool, FileLink, LinkByUID])
    name = ('extend', '__iadd__')[ctx.choose(2)]
    kind, r = outcome(lambda: interp.call(interp.getattr(st.v, name), [x]))
    ctx.prove('it is refused', kind == 'raise')
    st.unchanged('it')


@unit('C05', 'construction', covers=['refused', 'accepted'])
def u_new(ctx, interp):
    types = FILTERS[ctx.choose(len(FILTERS))]
    hooked = bool(ctx.choose(2))
    ctx.func_contracts[hook] = hook_contract(types)
    ctx.func_contracts.update(eq_contract())
    src, n, arr = given(ctx, interp)
    filt = STuple(types) if len(types) > 1 or ctx.choose(2) else types[0]
    ok = ctx.choose(2)
    if ok:
        ctx.assume(whole(ctx, n, arr, types, hooked))
    trig = hook if hooked else None
    if ctx.choose(2):
        kind, v = outcome(lambda: interp.call(ValidList, [src, filt, trig]))
    else:
        kind, v = outcome(lambda: interp.call(validate_list, [src, filt], {'trigger': trig}))
    if kind == 'raise':
        ctx.cover('refused')
        ctx.prove('construction: welcome elements are accepted', not ok)
        return
    ctx.cover('accepted')
    n2, arr2 = ctx.seq_terms(interp.seq_content(v))
    ctx.prove('construction: a typed list is made', interp.isinstance_(v, ValidList))
    ctx.prove('construction: no element is lost', n2 == n)
    i = ctx.fresh(I, 'i')
    ctx.witnesses.append((arr, i))
    inside = z3.And(0 <= i, i < n)
    ctx.prove('construction: no element of another type is accepted',
              z3.Implies(inside, isin(arr[i], types)))
    ctx.prove('construction: the given elements are stored in order',
              z3.Implies(inside, arr2[i] == stored(arr[i], z3.BoolVal(hooked))))


@unit('C05', 'a constructed list applies its filter and hook later on', covers=['refused', 'accepted'])
def u_later(ctx, interp):
    types = FILTERS[ctx.choose(len(FILTERS))]
    hooked = bool(ctx.choose(2))
    ctx.func_contracts[hook] = hook_contract(types)
    ctx.func_contracts.update(eq_contract())
    filt = STuple(types) if len(types) > 1 or ctx.choose(2) else types[0]
    trig = hook if hooked else None
    v = interp.call(validate_list, [ctx.choose(2) and None or STuple(()), filt], {'trigger': trig})
    x = ctx.any_value('x')
    kind, _ = outcome(lambda: interp.call(interp.getattr(v, 'append'), [x]))
    n, arr = ctx.seq_terms(interp.seq_content(v))
    t = ctx.lift(x)
    good = z3.And(isin(t, types), z3.Not(REFUSES(t))) if hooked else isin(t, types)
    if kind == 'raise':
        ctx.cover('refused')
        ctx.prove('later: only an unwelcome element is refused', z3.Not(good))
        ctx.prove('later: a refused element is not stored', n == 0)
    else:
        ctx.cover('accepted')
        ctx.prove('later: an unwelcome element is refused', good)
        ctx.prove('later: it is stored', z3.And(n == 1, arr[0] == stored(t, z3.BoolVal(hooked))))


@unit('C05', 'a single value where a list is expected', covers=['refused', 'accepted'])
def u_one(ctx, interp):
    types = FILTERS[ctx.choose(len(FILTERS))]
    x = ctx.any_value('x', [c for c in UNIVERSE.classes
                            if c is str or not hasattr(c, '__iter__') and c is not type(None)
                            and not c.__name__.startswith('Any')])
    kind, v = outcome(lambda: interp.call(validate_list, [x, STuple(types)]))
    good = isin(x.t, types)
    if kind == 'raise':
        ctx.cover('refused')
        ctx.prove('only a wrong-typed value is refused', z3.Not(good))
    else:
        ctx.cover('accepted')
        n, arr = ctx.seq_terms(interp.seq_content(v))
        ctx.prove('a wrong-typed value is refused', good)
        ctx.prove('it becomes the only element', z3.And(n == 1, arr[0] == x.t))


@unit('C05', 'slice assignment', covers=['refused', 'accepted'],
      note="slices without a step; stepped slices are exercised by the bounded check")
def u_slice(ctx, interp):
    st = State(ctx, interp)
    src, n, arr = given(ctx, interp, st)
    lo, hi = [None if ctx.choose(2) else ctx.any_value(h, [int]) for h in ('lo', 'hi')]
    ok = ctx.choose(2)
    if ok:
        ctx.assume(whole(ctx, n, arr, st.types, st.hooked))
    kind, r = outcome(lambda: interp.setitem(st.v, slice(lo, hi), src))
    if kind == 'raise':
        ctx.cover('refused')
        ctx.prove('slice assignment: welcome elements are accepted', not ok)
        st.unchanged('slice assignment refused')
        return
    ctx.cover('accepted')

    def clamp(x, dflt):
        if x is None:
            return dflt
        k = Val.i(x.t)
        return z3.If(k < 0, z3.If(k + st.n < 0, 0, k + st.n), z3.If(k > st.n, st.n, k))
    a, b = clamp(lo, z3.IntVal(0)), clamp(hi, st.n)
    b = z3.If(b < a, a, b)
    n2, arr2 = st.now()
    ctx.prove('slice assignment: no element is lost', n2 == st.n - (b - a) + n)
    added(st, 'slice assignment', a, n, arr, arr2)
    kept(st, 'slice assignment', 0, a, arr2)
    i = ctx.fresh(I, 'i')
    ctx.prove('slice assignment: the elements behind move along',
              z3.Implies(z3.And(b <= i, i < st.n), arr2[i - b + a + n] == st.arr[i]))


@unit('C05', 'remove', covers=['absent', 'removed'])
def u_remove(ctx, interp):
    ctx.func_contracts.update(eq_contract())
    st = State(ctx, interp, (IngredientRun, LinkByUID))
    x = ctx.any_value('x', list(ENTITIES) + [LinkByUID])
    kind, r = outcome(lambda: interp.call(interp.getattr(st.v, 'remove'), [x]))
    if kind == 'raise':
        ctx.cover('absent')
        st.unchanged('remove')
        i = ctx.fresh(I, 'i')
        ctx.witnesses.append((st.arr, i))
        interp.instantiate_lemmas(st.arr, i)
        ctx.prove('remove: only something that is not there is an error',
                  z3.Implies(z3.And(0 <= i, i < st.n), st.arr[i] != x.t))
        return
    ctx.cover('removed')
    n, arr = st.now()
    ctx.prove('remove: one element less', n == st.n - 1)
    i = ctx.fresh(I, 'i')
    ctx.prove('remove: the other elements stay in order', z3.Implies(
        z3.And(0 <= i, i < n), z3.Or(arr[i] == st.arr[i], arr[i] == st.arr[i + 1])))


# ---------------------------------------------------------------- the fields
VALID = z3.Function('VALIDATES', Val, Val, B)
BROKEN = z3.Function('VALIDATION_FAILS', Val, Val, B)


def validates(interp, args, kwargs):
    """Template validation of an attribute: some answer, or an error (C07 says which)."""
    ctx = interp.ctx
    a, b = (ctx.lift(x) for x in args)
    if ctx.branch(BROKEN(a, b)):
        raise PyRaise(SExc(TypeError, ()))
    return SV(Val.bool(VALID(a, b)))


def checkers(ctx):
    ctx.func_contracts.update(eq_contract())
    for c, f in ((HasConditionTemplates, 'validate_condition'),
                 (HasParameterTemplates, 'validate_parameter'),
                 (HasPropertyTemplates, 'validate_property')):
        ctx.func_contracts[c.__dict__[f]] = validates


def hook_pair(interp, args, kwargs):
    ctx = interp.ctx
    t = ctx.lift(args[0])
    if ctx.branch(REFUSES(t)):
        raise PyRaise(SExc(TypeError, ()))
    ctx.touch(HOOK(t))
    ctx.narrow(HOOK(t), [list])
    return SV(HOOK(t))


FIELDS = []   # (class, attribute, element types, pairs)
for _c in GEMD:
    for _f, _s in TABLE[_c].items():
        if isinstance(_s, ListOf) and isinstance(getattr(_c, _f[1:], None), property) and \
                getattr(_c, _f[1:]).fset is not None:
            FIELDS.append((_c, _f, _s))


def field_unit(cls, f, shape):
    attr = f[1:]
    pairs = shape.elems == [tuple]
    types = tuple(shape.content or shape.elems)

    @unit('C05', f'{cls.__name__}.{attr} = ...', covers=['refused', 'accepted'])
    def u(ctx, interp):
        checkers(ctx)
        level = set_level(ctx, interp) if shape.trigger and not pairs else None
        if pairs:
            ctx.func_contracts[BaseTemplate.__dict__['_homogenize_ranges'].__func__] = hook_pair
        o = ctx.obj(cls)
        before = interp.getattr(o, attr)
        if ctx.choose(3) == 0:
            x = ctx.any_value('x', [FileLink, LinkByUID, int, Condition, Property, Parameter,
                                    PropertyAndConditions, PropertyTemplate] +
                              ([] if pairs else [str]))
            arr, n = z3.Store(ctx.fresh(SeqArr, 'given'), 0, ctx.lift(x)), z3.IntVal(1)
        else:
            x = ctx.obj((list, AnyIterator)[ctx.choose(2)], 'items')
            n, arr = ctx.seq_terms(interp.seq_content(x))
        bn, barr = ctx.seq_terms(interp.seq_content(before)) if before is not None else (None, None)
        kind, r = outcome(lambda: interp.setattr(o, attr, x))
        after = interp.getattr(o, attr)
        if kind == 'raise':
            ctx.cover('refused')
            ctx.prove('a refused list is not stored', interp.is_(before, after))
            if bn is not None:
                n2, arr2 = ctx.seq_terms(interp.seq_content(after))
                i = ctx.fresh(I, 'i')
                ctx.prove('the elements stay', z3.And(
                    n2 == bn, z3.Implies(z3.And(0 <= i, i < bn), arr2[i] == barr[i])))
            return
        ctx.cover('accepted')
        n2, arr2 = ctx.seq_terms(interp.seq_content(after))
        ctx.prove('a typed list is stored', interp.isinstance_(after, ValidList))
        ctx.prove('the given list itself is not', z3.Not(
            ctx.lift(after) == ctx.lift(x)) if isinstance(x, SV) else True)
        i = ctx.fresh(I, 'i')
        ctx.witnesses.append((arr, i))
        inside = z3.And(0 <= i, i < n2)
        if pairs:
            # two values one of which is a range are one pair
            if ctx.branch(n2 != n):
                ctx.prove('only a single pair of template and range is read as one', n2 == 1)
                return
            got = arr2[i]
            ctx.prove('every element is a homogenised given element', z3.Implies(
                inside, z3.Or(got == HOOK(arr[i]), n2 == 1)))
            return
        ctx.prove('no element is lost', n2 == n)
        ctx.prove('no element of another type is accepted', z3.Implies(inside, isin(arr[i], types)))
        ctx.prove('the given elements are stored in order', z3.Implies(inside, arr2[i] == arr[i]))
        y = ctx.any_value('y', list(ENTITIES) + [LinkByUID, int, type(None), Condition, Property,
                                                 Parameter, PropertyAndConditions, str, FileLink])
        kind, r = outcome(lambda: interp.call(interp.getattr(after, 'append'), [y]))
        ctx.prove('later, too, no element of another type is accepted',
                  z3.Implies(kind == 'ret', isin(ctx.lift(y), types)) if kind == 'ret'
                  else True)


for _x in FIELDS:
    field_unit(*_x)


@unit('C05', 'template entries are pairs of a template and its range', covers=['refused', 'accepted'])
def u_homogenize(ctx, interp):
    from gemd.entity.bounds.base_bounds import BaseBounds
    f = BaseTemplate._homogenize_ranges
    for c in BOUNDS:
        ctx.func_contracts[c.__dict__['contains']] = contains_any
    ctx.func_contracts[BaseBounds.__dict__['contains']] = contains_any
    way = ctx.choose(3)
    vals = [c for c in UNIVERSE.classes if not c.__name__.startswith('Any')
            and c not in (tuple, ValidList)]
    if way == 0:
        x = ctx.any_value('x', [c for c in vals if c is not list])
    elif way == 1:
        x = ctx.obj(list, 'x')
    else:
        x = STuple(tuple(ctx.any_value('x', vals) for _ in range(ctx.choose(4))))
    kind, r = outcome(lambda: interp.call(f, [x]))
    if kind == 'raise':
        ctx.cover('refused')
        ctx.prove('a template or link on its own is accepted',
                  way != 0 or z3.Not(isin(ctx.lift(x), ATTR_TEMPLATES + (LinkByUID,))))
        return
    ctx.cover('accepted')
    n, arr = ctx.seq_terms(interp.seq_content(r))
    ctx.prove('a pair', n == 2)
    ctx.touch(z3.simplify(arr[0]))
    ctx.touch(z3.simplify(arr[1]))
    ctx.prove('of a template or link', isin(arr[0], ATTR_TEMPLATES + (LinkByUID,)))
    ctx.prove('and a range or nothing', isin(arr[1], BOUNDS + (type(None),)))
    if way == 0:
        ctx.prove('the template is kept', z3.And(arr[0] == ctx.lift(x), Val.is_none(arr[1])))
    else:
        n0, a0 = ctx.seq_terms(interp.seq_content(x))
        ctx.prove('both are kept', z3.And(n0 == 2, arr[0] == a0[0], arr[1] == a0[1]))


def contains_any(interp, args, kwargs):
    """Containment of ranges: some answer (C08 says which)."""
    ctx = interp.ctx
    r = ctx.fresh(B, 'contains')
    return SV(Val.bool(r))

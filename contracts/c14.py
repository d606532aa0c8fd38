"""C14: substituting links for objects and back.

Both recursive functions are proved by one call on an arbitrary value of every kind, in an arbitrary
state of the record of what was already substituted, their recursive calls replaced by the contract
being proved: S(x) is what the call on x gives.  What decides a replacement (`applies`, `sub`) is
arbitrary there; the two public functions are proved to pass the right ones.
"""
import inspect

import z3

import gemd.util.impl as impl
from gemd.entity.base_entity import BaseEntity
from gemd.entity.case_insensitive_dict import CaseInsensitiveDict
from gemd.entity.dict_serializable import DictSerializable
from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.object import MaterialRun
from gemd.enumeration import Origin

from pyvc.ctx import Unsupported
from pyvc.loops import origins
from pyvc.models import KEYS, KPOS
from pyvc.unit import unit, outcome
from pyvc.values import *  # noqa: F401,F403
from pyvc.values import UNIVERSE, Val, I, B

from .common import eq_contract
from .shapes import ENTITIES, GEMD, TABLE as _TABLE

TABLE = {c: f for c, f in _TABLE.items() if c is not CaseInsensitiveDict}

S = z3.Function('SUBSTITUTED', Val, Val)
APPLIES = z3.Function('APPLIES', Val, B)
SUB = z3.Function('REPLACEMENT', Val, Val)
BUILD = z3.Function('BUILT', Val, Val)
SCALARS = (str, int, float, bool, type(None), bytes, Origin)


def applies(x):
    """Whether something is replaced (its contract: any predicate)."""


def sub(x):
    """The replacement (its contract: any function)."""


class Step:
    """One call of a recursive substitution with everything around it arbitrary."""

    def __init__(self, ctx, interp, name):
        self.ctx, self.interp = ctx, interp
        for k in [k for k in ctx.func_contracts
                  if getattr(k, '__name__', '') == 'as_dict']:
            del ctx.func_contracts[k]
        self.func = getattr(impl, name, None)
        if self.func is None:
            raise Unsupported(f"there is no function {name}")
        self.visited = ctx.new_dict([])
        self.dom0, self.map0 = ctx.fresh(DomArr, 'visited'), ctx.fresh(MapArr, 'replaced')
        ctx.set_content(self.visited, CMap(dom=self.dom0, map=self.map0))
        ctx.func_contracts.update(eq_contract())
        ctx.func_contracts[applies] = lambda interp, a, k: SV(Val.bool(APPLIES(ctx.lift(a[0]))))
        self.swap = None
        ctx.func_contracts[sub] = self.sub
        self.built = []
        self.fields = {}
        self.result_kinds = None
        ctx.func_contracts[DictSerializable.build] = self.build
        self.same_record = True
        ctx.recursion = self.nested

    def sub(self, interp, args, kwargs):
        if self.swap is None:
            raise Unsupported("what is not replaced is given to the replacing function")
        return self.swap

    def build(self, interp, args, kwargs):
        """Building an object from its fields (C01)."""
        d = args[-1]
        out = SV(self.ctx.fresh(Val, 'built'))
        self.built.append((d, out))
        return out

    def nested(self, interp, f, vars_):
        if f is not self.func:
            return NotImplemented
        x, *rest = vars_.values()
        if not any(isinstance(v, SV) and z3.eq(v.t, self.visited.t) for v in rest):
            self.ctx.prove('the record of what was substituted is shared', False)
        t = S(self.ctx.lift(x))
        self.ctx.touch(t)
        if self.result_kinds:
            self.ctx.narrow(t, self.result_kinds)
        return SV(t)

    def fields_of(self, x, cls):
        """The fields of an object (what as_dict gives: C01, C18), the same at every call."""
        ctx, interp = self.ctx, self.interp
        f = inspect.getattr_static(cls, 'as_dict')
        made = ctx.func_contracts.pop(f, None)
        spine = interp.map_content(interp.call(interp.getattr(x, 'as_dict'), [])).spine
        if spine is None:
            raise Unsupported("the fields are not listed one by one")
        known = self.fields.setdefault(f, [])
        known.append((x, spine))
        for k, _ in spine:
            # the names of fields are texts, which are given as they are
            ctx.assume(S(ctx.lift(k)) == ctx.lift(k))

        def as_dict(interp, args, kwargs):
            for obj, spine in known:
                if interp.decide(interp.is_(args[0], obj)):
                    return ctx.new_dict(list(spine))
            raise Unsupported("the fields of some other object are read")
        ctx.func_contracts[f] = made or as_dict
        return {str(k): v for k, v in spine}

    def call(self, x):
        return outcome(lambda: self.interp.call(
            self.func, [x], dict(sub=sub, applies=applies, visited=self.visited)))


def value(ctx, cls):
    if cls in _TABLE:
        return ctx.obj(cls, 'x')
    if cls is Origin:
        return list(Origin)[ctx.choose(2)]
    if cls is tuple:
        t = ctx.alloc(tuple)
        n, arr = ctx.fresh(I, 'n'), ctx.fresh(SeqArr, 'items')
        ctx.assume(n >= 0)
        ctx.set_content(t, CSeq(n=n, arr=arr))
        return t
    return ctx.any_value('x', [cls])


def unchanged(ctx, interp, cls, x, before):
    if cls in (list, tuple):
        n, arr = ctx.seq_terms(interp.seq_content(x))
        q = ctx.fresh(I, 'q')
        ctx.prove('the input keeps its elements', z3.And(n == before[0], z3.Implies(
            z3.And(0 <= q, q < n), arr[q] == before[1][q])))
    elif cls in (dict, CaseInsensitiveDict):
        d, m = ctx.map_terms(interp.map_content(x))
        k = ctx.fresh(Val, 'k')
        ctx.prove('the input keeps its entries', z3.And(
            d[k] == before[0][k], z3.Implies(d[k], m[k] == before[1][k])))
    elif cls in TABLE:
        for f, v in before.items():
            ctx.prove(f'the input keeps its {f}',
                      interp.decide(interp.is_(interp.getattr(x, f), v)))


def state(ctx, interp, cls, x):
    if cls in (list, tuple):
        return ctx.seq_terms(interp.seq_content(x))
    if cls in (dict, CaseInsensitiveDict):
        return ctx.map_terms(interp.map_content(x))
    if cls in TABLE:
        return {f: interp.getattr(x, f) for f in TABLE[cls]}


def key_of(ctx, interp, st, t):
    """The term under which a substituted key is stored."""
    ctx.touch(t)
    ctx.narrow(t, st.result_kinds)
    return z3.simplify(interp.keyterm(SV(t)))


def entries(ctx, interp, before, out, st):
    """`out` has the entries of before, keys and values substituted."""
    d, m = before
    n, order = interp.dom_order(d)
    gd, gm = ctx.map_terms(interp.map_content(out))
    i, q = ctx.fresh(I, 'i'), z3.Const('q!key', I)
    x = ctx.fresh(Val, 'x')
    ctx.assume(z3.Implies(n > 0, z3.And(0 <= i, i < n)))
    ctx.inst_map(d, order[i])
    kt = key_of(ctx, interp, st, S(order[i]))
    ctx.prove('each key is substituted', z3.Implies(n > 0, gd[kt]))
    some = z3.Exists([q], z3.And(
        0 <= q, q < n, x == z3.substitute(kt, (i, q)), gm[x] == S(m[order[q]])))
    # where the entry may come from
    ctx.assume(gd[x])
    ctx.inst_all(x)
    here = [KPOS(d, x)] + origins(ctx, x)
    for w in here:
        ctx.inst_map(d, order[w])
        ctx.assume(z3.Implies(z3.And(0 <= w, w < n), z3.And(
            d[order[w]], KPOS(d, order[w]) == w)))
        interp.instantiate_lemmas(order, w)
    for mk, dom in list(ctx.memo.items()):
        if mk[0] == 'order':
            interp.instantiate_lemmas(interp.dom_order(dom)[1], KPOS(dom, x))
    at = [z3.And(0 <= w, w < n, x == z3.substitute(kt, (i, w)), gm[x] == S(m[order[w]]))
          for w in here]
    ctx.prove('nothing else is a key, and each value is the substitute of a value',
              z3.Or(*at, some))


def known_keys(ctx, dom, kinds):
    """The keys of a mapping are of known kinds (stored under themselves: texts, entities)."""
    def fact(key):
        if z3.is_select(key) and z3.is_app(key.arg(0)) and key.arg(0).decl().eq(KEYS) \
                and key.arg(0).arg(0).eq(dom):
            ctx.touch(key)
            ctx.narrow(key, kinds)
        return []
    ctx.map_hooks.append((dom, fact))


def image(ctx, interp, cls, src, before, out, st, fields):
    """`out` is the copy of `src` with everything in it substituted."""
    if cls in (list, tuple):
        n, arr = before
        ctx.prove('a list gives a list, a tuple a tuple', interp.decide(ctx.type_test(
            out, lambda c: c is (tuple if cls is tuple else list))) if isinstance(out, SV)
            else isinstance(out, STuple) and cls is tuple)
        m, got = ctx.seq_terms(interp.seq_content(out))
        i = ctx.fresh(I, 'i')
        ctx.assume(z3.Implies(n > 0, z3.And(0 <= i, i < n)))
        interp.instantiate_lemmas(got, i)
        ctx.prove('each element is substituted, in its place', z3.And(
            m == n, z3.Implies(n > 0, got[i] == S(arr[i]))))
        if cls is list:
            ctx.prove('the copy is new', Val.a(ctx.lift(out)) < 0)
    elif cls in (dict, CaseInsensitiveDict):
        ctx.prove('the copy is new', Val.a(ctx.lift(out)) < 0)
        entries(ctx, interp, before, out, st)
    elif cls in TABLE:
        ctx.prove('the object is built once', len(st.built) == 1)
        d, made = st.built[0]
        ctx.prove('what is built is given', interp.decide(interp.is_(out, made)))
        given = interp.map_content(d)
        if given.spine is None:
            raise Unsupported("the fields are not listed one by one")
        want = fields
        got = {}
        for k, v in given.spine:
            name = [w for w in want if interp.decide(interp.eq(k, SV(S(ctx.lift(w)))))]
            ctx.prove('only fields of the object are given', len(name) == 1)
            got[name[0]] = v
        ctx.prove('every field is given', set(got) == set(want))
        for k in want:
            ctx.prove(f'{k} is substituted',
                      interp.decide(interp.is_(got[k], SV(S(ctx.lift(want[k]))))))
    else:
        ctx.prove('what holds nothing is given as it is', interp.decide(interp.is_(out, src))
                  if isinstance(out, SV) else ctx.lift(out) == ctx.lift(src))


KINDS = GEMD + (list, tuple, dict, CaseInsensitiveDict) + SCALARS


def copy_unit(cls):
    recycled = cls in TABLE and cls is not CaseInsensitiveDict

    @unit('C14', f'copying substitution of a {cls.__name__}',
          covers=['kept', 'replaced'] + (['seen'] if cls in ENTITIES else []))
    def body(ctx, interp):
        st = Step(ctx, interp, '_substitute')
        x = value(ctx, cls)
        before = state(ctx, interp, cls, x)
        t = ctx.lift(x)
        fields = st.fields_of(x, cls) if cls in TABLE else None
        if cls in (dict, CaseInsensitiveDict):
            st.result_kinds = [(str, MaterialRun), (LinkByUID,)][ctx.choose(2)]
        if cls in ENTITIES and ctx.choose(2):
            key = interp.keyterm(x)
            ctx.assume(st.dom0[key])
            kind, out = st.call(x)
            ctx.cover('seen')
            ctx.prove('what was substituted before is given again',
                      kind == 'ret' and ctx.entails(ctx.lift(out) == st.map0[key]))
            return
        key = interp.keyterm(x) if recycled else None
        if recycled:
            ctx.assume(z3.Not(st.dom0[key]))
        replaced = ctx.choose(2) == 1
        ctx.assume(APPLIES(t) if replaced else z3.Not(APPLIES(t)))
        src, scls, sbefore = x, cls, before
        if replaced:
            scls = LinkByUID if cls is not LinkByUID else str
            src = value(ctx, scls)
            sbefore = state(ctx, interp, scls, src)
            st.swap = src
            fields = st.fields_of(src, scls) if scls in TABLE else None
        kind, out = st.call(x)
        ctx.cover('replaced' if replaced else 'kept')
        ctx.prove('substitution succeeds', kind == 'ret')
        image(ctx, interp, scls, src, sbefore, out, st, fields)
        unchanged(ctx, interp, cls, x, before)
        if scls is not cls:
            unchanged(ctx, interp, scls, src, sbefore)
        d, m = ctx.map_terms(interp.map_content(st.visited))
        k = ctx.fresh(Val, 'k')
        if recycled:
            ctx.prove('only the result is recorded, other records stay', z3.And(
                z3.Implies(d[k], z3.Or(st.dom0[k], k == key)),
                z3.Implies(st.dom0[k], z3.And(d[k], m[k] == st.map0[k])),
                z3.Implies(d[key], m[key] == ctx.lift(out))))
        if cls in ENTITIES:
            ctx.prove('what was made of an entity is recorded', d[key])


for _c in KINDS:
    copy_unit(_c)


# ---------------------------------------------------------------- in place
def place_unit(cls):
    recycled = cls in TABLE or cls in (list, dict, CaseInsensitiveDict, bytes)
    covers = ['kept', 'replaced'] + (['seen'] if cls in ENTITIES else [])

    @unit('C14', f'substitution in place of a {cls.__name__}', covers=covers)
    def body(ctx, interp):
        st = Step(ctx, interp, '_substitute_inplace')
        x = value(ctx, cls)
        before = state(ctx, interp, cls, x)
        t = ctx.lift(x)
        if cls in TABLE or cls is bytes:
            key = interp.keyterm(x)
        elif recycled:
            key = interp.keyterm(interp.builtin_models[id(id)](interp, x))
        if cls in ENTITIES and ctx.choose(2):
            ctx.assume(st.dom0[key])
            kind, out = st.call(x)
            ctx.cover('seen')
            ctx.prove('what was substituted before is given again',
                      kind == 'ret' and ctx.entails(ctx.lift(out) == st.map0[key]))
            return
        if recycled:
            ctx.assume(z3.Not(st.dom0[key]))
        replaced = ctx.choose(2) == 1
        ctx.assume(APPLIES(t) if replaced else z3.Not(APPLIES(t)))
        src, scls, sbefore = x, cls, before
        if replaced:
            scls = LinkByUID if cls is not LinkByUID else str
            src = value(ctx, scls)
            sbefore = state(ctx, interp, scls, src)
            st.swap = src
        fields = st.fields_of(src, scls) if scls in TABLE else None
        if scls is dict:
            st.result_kinds = [(str, MaterialRun), (LinkByUID,)][ctx.choose(2)]
            known_keys(ctx, sbefore[0], (str, MaterialRun))
        stored = []
        if fields is not None:
            # one field at a time: the value of any field may change, the others do not
            names = [k for k in fields if k != 'type']
            changing = names[ctx.choose(len(names))] if names else None
            for k in fields:
                ft = ctx.lift(fields[k])
                if k != changing:
                    ctx.assume(S(ft) == ft)

            def setter(interp, args, kwargs):
                clazz, attribute = args
                name = str(attribute)

                def store(interp, *a):
                    stored.append((name, a))
                return SMock(f'setter of {name}', {'__call__': store})
            ctx.func_contracts[setters()] = setter
        kind, out = st.call(x)
        ctx.cover('replaced' if replaced else 'kept')
        ctx.prove('substitution succeeds', kind == 'ret')
        same = interp.decide(interp.is_(out, src)) if isinstance(out, SV) else \
            ctx.lift(out) == ctx.lift(src)
        if scls is tuple:
            image(ctx, interp, scls, src, sbefore, out, st, fields)
        else:
            ctx.prove('the very object, or its replacement, is given', same)
        if fields is not None and changing:
            v = ctx.lift(fields[changing])
            if ctx.branch(S(v) == v):
                ctx.prove('a field that stays is not assigned', not stored)
            else:
                ctx.prove('the field that changes is assigned once, no other',
                          [n for n, _ in stored] == [changing])
                ctx.prove('on the object, the substitute', interp.decide(
                    interp.is_(stored[0][1][0], src)) and ctx.entails(
                    ctx.lift(stored[0][1][1]) == S(v)))
        elif scls is list:
            n, arr = sbefore
            m, got = ctx.seq_terms(interp.seq_content(src))
            i = ctx.fresh(I, 'i')
            ctx.assume(z3.Implies(n > 0, z3.And(0 <= i, i < n)))
            interp.instantiate_lemmas(got, i)
            ctx.prove('each element is substituted, in its place', z3.And(
                m == n, z3.Implies(n > 0, got[i] == S(arr[i]))))
        elif scls is dict:
            entries(ctx, interp, sbefore, src, st)
        d, m = ctx.map_terms(interp.map_content(st.visited))
        k = ctx.fresh(Val, 'k')
        if recycled:
            ctx.prove('only the result is recorded, other records stay', z3.And(
                z3.Implies(d[k], z3.Or(st.dom0[k], k == key)),
                z3.Implies(st.dom0[k], z3.And(d[k], m[k] == st.map0[k])),
                z3.Implies(d[key], m[key] == ctx.lift(out))))
        if cls in ENTITIES:
            ctx.prove('what was made of an entity is recorded', d[key])


def setters():
    f = getattr(impl, '_setter_by_attribute', None)
    if f is None:
        raise Unsupported("there is no function that finds the setter of a field")
    return f


for _c in KINDS:
    if _c is not CaseInsensitiveDict:
        place_unit(_c)


# ---------------------------------------------------------------- the public functions
class Capture:
    """What the public function gives the recursive ones (their contracts: the units above)."""

    def __init__(self, ctx, interp):
        self.calls = []
        self.result = SV(ctx.fresh(Val, 'result'))
        ctx.func_contracts.update(eq_contract())
        for name in ('_substitute', '_substitute_inplace'):
            f = getattr(impl, name, None)
            if f is None:
                raise Unsupported(f"there is no function {name}")
            ctx.func_contracts[f] = self.handler(f, name)

    def handler(self, f, name):
        names = list(inspect.signature(f).parameters)

        def call(interp, args, kwargs):
            given = dict(zip(names, args))
            given.update(kwargs)
            self.calls.append((name, given))
            return self.result
        return call

    def one(self, ctx, interp, inplace, x):
        ctx.prove('one recursive substitution is made', len(self.calls) == 1)
        name, given = self.calls[0]
        ctx.prove('in place exactly when asked',
                  name == ('_substitute_inplace' if inplace else '_substitute'))
        ctx.prove('of the very structure', interp.decide(interp.is_(given['thing'], x)))
        ctx.prove('starting with nothing recorded', given.get('visited') is None)
        return given['sub'], given['applies']


def run(interp, f, args):
    return outcome(lambda: interp.call(f, args))


@unit('C14', 'substitute_links replaces every entity but the root by its link',
      covers=['other', 'the root', 'no entity', 'default'])
def links(ctx, interp):
    cap = Capture(ctx, interp)
    root_kind = (MaterialRun, list, dict, LinkByUID)[ctx.choose(4)]
    x = value(ctx, root_kind)
    scope = ctx.any_value('scope', [str, type(None)])
    fallback, inplace = bool(ctx.choose(2)), bool(ctx.choose(2))
    mode = ctx.choose(2)
    if mode:
        args = dict(scope=scope, allow_fallback=fallback, inplace=inplace)
    else:
        args, scope, fallback, inplace = {}, None, True, False
        ctx.cover('default')
    kind, out = outcome(lambda: interp.call(impl.substitute_links, [x], args))
    ctx.prove('it succeeds', kind == 'ret')
    s, a = cap.one(ctx, interp, inplace, x)
    ctx.prove('what was made is given', interp.decide(interp.is_(out, cap.result)))
    made = SV(ctx.fresh(Val, 'link'))
    asked = []

    def to_link(interp, args, kwargs):
        names = list(inspect.signature(BaseEntity.to_link).parameters)
        given = dict(zip(names, args))
        given.update(kwargs)
        asked.append(given)
        return made
    ctx.func_contracts[BaseEntity.to_link] = to_link
    which = ctx.choose(3)
    if which == 0:
        o = ctx.obj(ENTITIES[ctx.choose(len(ENTITIES))], 'o')
        if isinstance(x, SV):
            ctx.assume(ctx.lift(o) != ctx.lift(x))
        ctx.cover('other')
        kind, r = run(interp, a, [o])
        ctx.prove('an entity is replaced', kind == 'ret' and interp.decide(r))
        kind, r = run(interp, s, [o])
        ctx.prove('by its link', kind == 'ret' and interp.decide(interp.is_(r, made)))
        ctx.prove('asked of the entity', len(asked) == 1 and interp.decide(
            interp.is_(asked[0]['self'], o)))
        ctx.prove('in the preferred scope', interp.decide(
            interp.is_(asked[0].get('scope'), scope)))
        ctx.prove('with another one as allowed', asked[0].get('allow_fallback') is fallback)
    elif which == 1:
        ctx.cover('the root')
        kind, r = run(interp, a, [x])
        ctx.prove('the root is not replaced', kind == 'ret' and not interp.decide(r))
    else:
        ctx.cover('no entity')
        c = KINDS_NOT_ENTITY[ctx.choose(len(KINDS_NOT_ENTITY))]
        o = value(ctx, c)
        kind, r = run(interp, a, [o])
        ctx.prove('what is no entity is not replaced', kind == 'ret' and not interp.decide(r))


KINDS_NOT_ENTITY = [c for c in KINDS if c not in ENTITIES]


@unit('C14', 'substitute_objects replaces every link the index knows by its object',
      covers=['known', 'unknown', 'no link', 'default'])
def objects(ctx, interp):
    cap = Capture(ctx, interp)
    root_kind = (MaterialRun, list, dict, LinkByUID)[ctx.choose(4)]
    x = value(ctx, root_kind)
    index = ctx.new_dict([])
    dom, mp = ctx.fresh(DomArr, 'indexed'), ctx.fresh(MapArr, 'index')
    ctx.set_content(index, CMap(dom=dom, map=mp))
    inplace = bool(ctx.choose(2))
    if ctx.choose(2):
        kind, out = outcome(lambda: interp.call(
            impl.substitute_objects, [x, index], dict(inplace=inplace)))
    else:
        ctx.cover('default')
        inplace = False
        kind, out = outcome(lambda: interp.call(impl.substitute_objects, [x, index]))
    ctx.prove('it succeeds', kind == 'ret')
    s, a = cap.one(ctx, interp, inplace, x)
    ctx.prove('what was made is given', interp.decide(interp.is_(out, cap.result)))
    if ctx.choose(2):
        o = ctx.obj(LinkByUID, 'o')
        kind, r = run(interp, a, [o])
        ctx.prove('a link is replaced', kind == 'ret' and interp.decide(r))
        key = interp.keyterm(o)
        known = ctx.choose(2)
        ctx.assume(dom[key] if known else z3.Not(dom[key]))
        ctx.cover('known' if known else 'unknown')
        kind, r = run(interp, s, [o])
        ctx.prove('by the object of the index, a link it does not know by itself',
                  kind == 'ret' and ctx.entails(
                      ctx.lift(r) == (mp[key] if known else ctx.lift(o))))
    else:
        ctx.cover('no link')
        c = NOT_LINKS[ctx.choose(len(NOT_LINKS))]
        kind, r = run(interp, a, [value(ctx, c)])
        ctx.prove('what is no link is not replaced', kind == 'ret' and not interp.decide(r))
    d, m = ctx.map_terms(interp.map_content(index))
    k = ctx.fresh(Val, 'k')
    ctx.prove('the index is only read', z3.And(d[k] == dom[k],
                                               z3.Implies(d[k], m[k] == mp[k])))


NOT_LINKS = [c for c in KINDS if c is not LinkByUID]

"""C06: identifier maps are case-insensitive and never hold two spellings.

Abstractly the map is a function from folded scopes to values.  Every operation, on an arbitrary map
satisfying the representation invariant, acts on that function as stated and re-establishes the
invariant; lookups are compared through the real lookup methods with an arbitrary spelling.
"""
import z3

from gemd.entity.case_insensitive_dict import CaseInsensitiveDict

from pyvc.unit import unit, outcome
from pyvc.values import *  # noqa: F401,F403
from pyvc.values import Val

from . import uidmap as um


def start(ctx, interp, *others):
    ctx.loop_rules.append(um.Register())
    ctx.ground_maps = True
    d = ctx.obj(CaseInsensitiveDict, 'map')
    st = um.assume_inv(interp, d, *others)
    return d, st


def key(ctx, hint='scope'):
    return ctx.any_value(hint, [str])


def lookups(ctx, interp, d, w, present, val, tag):
    """Every lookup of w answers `present` (formula) and `val` (term, where present)."""
    um.touch(interp, um.state(interp, d), w.t)
    r = interp.contains(d, w)
    ctx.prove(f'{tag}: membership', ctx.lift(r) == Val.bool(present))
    kind, v = outcome(lambda: interp.getitem(d, w))
    if kind == 'ret':
        ctx.prove(f'{tag}: lookup finds only what is there', present)
        ctx.prove(f'{tag}: lookup gives the value', ctx.lift(v) == val)
    else:
        ctx.prove(f'{tag}: lookup fails only where nothing is there', z3.Not(present))
        ctx.prove(f'{tag}: a failed lookup is a KeyError', issubclass(v.cls, KeyError))
    dflt = ctx.any_value('default')
    g = interp.call(interp.getattr(d, 'get'), [w, dflt])
    ctx.prove(f'{tag}: get', ctx.lift(g) == z3.If(present, val, dflt.t))
    g = interp.call(interp.getattr(d, 'get'), [w])
    ctx.prove(f'{tag}: get without default', ctx.lift(g) == z3.If(present, val, Val.none))


def same_state(ctx, interp, d, st, tag):
    now = um.state(interp, d)
    k = ctx.fresh(Val, 'k')
    um.touch(interp, st, k)
    um.touch(interp, now, k)
    ctx.prove(f'{tag}: stored scopes unchanged', z3.And(
        st[0][k] == now[0][k], z3.Implies(st[0][k], st[1][k] == now[1][k])))
    um.prove_inv(interp, d, tag)


@unit('C06', 'lookup, membership and get agree for every spelling', covers=['hit', 'miss'])
def u_lookup(ctx, interp):
    d, st = start(ctx, interp)
    w = key(ctx)
    lookups(ctx, interp, d, w, um.has(interp, st, w.t), um.value(interp, st, w.t), 'lookup')
    if ctx.branch(um.has(interp, st, w.t)):
        ctx.cover('hit')
        # the stored spelling is one of the map's keys, and another spelling finds the same value
        w2 = key(ctx, 'spelling')
        ctx.assume(um.low(w2.t) == um.low(w.t))
        ctx.prove('every spelling gives the same value', ctx.lift(interp.getitem(d, w2))
                  == ctx.lift(interp.getitem(d, w)))
    else:
        ctx.cover('miss')
    k = ctx.fresh(Val, 'k')
    um.touch(interp, st, k)
    ctx.prove('a stored scope is found', z3.Implies(st[0][k], um.has(interp, st, k)))
    same_state(ctx, interp, d, st, 'lookup')


def effect(ctx, interp, d, st, key_, gone=False, val=None, tag=''):
    """After the operation the map is the old one with key_ mapped to val (or removed)."""
    w = key(ctx, 'any scope')
    hit = um.low(w.t) == um.low(key_.t)
    if gone:
        present = z3.And(um.has(interp, st, w.t), z3.Not(hit))
        v = um.value(interp, st, w.t)
    else:
        present = z3.Or(um.has(interp, st, w.t), hit)
        v = z3.If(hit, val, um.value(interp, st, w.t))
    lookups(ctx, interp, d, w, present, v, tag)
    um.prove_inv(interp, d, tag)


def clash(interp, st, k):
    """Another spelling of k is stored."""
    return z3.And(um.has(interp, st, k), st[3][um.low(k)] != k)


@unit('C06', 'item assignment', covers=['stored', 'second spelling'])
def u_setitem(ctx, interp):
    v = ctx.any_value('value')
    d, st = start(ctx, interp, v)
    k = key(ctx)
    kind, r = outcome(lambda: interp.setitem(d, k, v))
    if kind == 'raise':
        ctx.cover('second spelling')
        ctx.prove('only a second spelling is rejected', clash(interp, st, k.t))
        ctx.prove('a second spelling is a ValueError', issubclass(r.cls, ValueError))
        same_state(ctx, interp, d, st, 'rejected')
    else:
        ctx.cover('stored')
        ctx.prove('a second spelling is rejected', z3.Not(clash(interp, st, k.t)))
        effect(ctx, interp, d, st, k, val=v.t, tag='stored')
        now = um.state(interp, d)
        ctx.prove('the scope is stored as written', now[0][k.t])


@unit('C06', 'deletion', covers=['deleted', 'missing'])
def u_del(ctx, interp):
    d, st = start(ctx, interp)
    k = key(ctx)
    kind, r = outcome(lambda: interp.delitem(d, k))
    if kind == 'raise':
        ctx.cover('missing')
        ctx.prove('only a missing scope cannot be deleted', z3.Not(um.has(interp, st, k.t)))
        ctx.prove('a missing scope is a KeyError', issubclass(r.cls, KeyError))
        same_state(ctx, interp, d, st, 'rejected')
    else:
        ctx.cover('deleted')
        ctx.prove('a missing scope cannot be deleted', um.has(interp, st, k.t))
        effect(ctx, interp, d, st, k, gone=True, tag='deleted')


@unit('C06', 'pop', covers=['popped', 'missing', 'default'])
def u_pop(ctx, interp):
    dflt = ctx.any_value('default')
    d, st = start(ctx, interp, dflt)
    k = key(ctx)
    way = ctx.choose(3)
    args, kw = [([k], {}), ([k, dflt], {}), ([k], {'default': dflt})][way]
    kind, r = outcome(lambda: interp.call(interp.getattr(d, 'pop'), args, kw))
    if kind == 'raise':
        ctx.cover('missing')
        ctx.prove('only a missing scope without a default raises',
                  z3.And(z3.Not(um.has(interp, st, k.t)), z3.BoolVal(way == 0)))
        ctx.prove('a missing scope is a KeyError', issubclass(r.cls, KeyError))
        same_state(ctx, interp, d, st, 'rejected')
    elif ctx.branch(um.has(interp, st, k.t)):
        ctx.cover('popped')
        ctx.prove('pop returns the value', ctx.lift(r) == um.value(interp, st, k.t))
        effect(ctx, interp, d, st, k, gone=True, tag='popped')
    else:
        ctx.cover('default')
        ctx.prove('pop returns the default', z3.And(ctx.lift(r) == dflt.t,
                                                    z3.BoolVal(way != 0)))
        same_state(ctx, interp, d, st, 'default')


@unit('C06', 'popitem', covers=['popped', 'empty'])
def u_popitem(ctx, interp):
    d, st = start(ctx, interp)
    n0 = interp.call(len, [d])
    kind, r = outcome(lambda: interp.call(interp.getattr(d, 'popitem'), []))
    if kind == 'raise':
        ctx.cover('empty')
        ctx.prove('only an empty map cannot be popped', interp.eq(n0, 0))
        ctx.prove('empty is a KeyError', issubclass(r.cls, KeyError))
    else:
        ctx.cover('popped')
        k, v = interp.unpack(r, 2)
        kt = ctx.lift(k)
        ctx.prove('popitem returns a stored pair', z3.And(st[0][kt], st[1][kt] == ctx.lift(v)))
        effect(ctx, interp, d, st, SV(kt), gone=True, tag='popped')


@unit('C06', 'clear')
def u_clear(ctx, interp):
    d, st = start(ctx, interp)
    interp.call(interp.getattr(d, 'clear'), [])
    w = key(ctx)
    lookups(ctx, interp, d, w, z3.BoolVal(False), Val.none, 'cleared')
    um.prove_inv(interp, d, 'cleared')
    ctx.prove('a cleared map has length 0', interp.eq(interp.call(len, [d]), 0))


@unit('C06', 'setdefault', covers=['present', 'absent'])
def u_setdefault(ctx, interp):
    v = ctx.any_value('default')
    d, st = start(ctx, interp, v)
    k = key(ctx)
    bare = ctx.choose(2)
    kind, r = outcome(lambda: interp.call(interp.getattr(d, 'setdefault'), [k] if bare else [k, v]))
    vt = Val.none if bare else v.t
    ctx.prove('setdefault does not raise', kind == 'ret')
    if kind != 'ret':
        return
    if ctx.branch(um.has(interp, st, k.t)):
        ctx.cover('present')
        ctx.prove('the stored value is returned', ctx.lift(r) == um.value(interp, st, k.t))
        same_state(ctx, interp, d, st, 'present')
    else:
        ctx.cover('absent')
        ctx.prove('the default is returned', ctx.lift(r) == vt)
        effect(ctx, interp, d, st, k, val=vt, tag='absent')


@unit('C06', 'copy')
def u_copy(ctx, interp):
    d, st = start(ctx, interp)
    kind, c = outcome(lambda: interp.call(interp.getattr(d, 'copy'), []))
    um.touch(interp, st, *ctx.map_keys)
    ctx.prove('copying does not raise', kind == 'ret')
    if kind != 'ret':
        return
    ctx.prove('the copy is another object of the same class', z3.And(
        c.t != d.t, clsof(c.t) == clsof(d.t)))
    w = key(ctx)
    lookups(ctx, interp, c, w, um.has(interp, st, w.t), um.value(interp, st, w.t), 'copy')
    um.prove_inv(interp, c, 'copy')
    same_state(ctx, interp, d, st, 'original')
    # independence
    k, v = key(ctx, 'later scope'), ctx.any_value('later value')
    kind, _ = outcome(lambda: interp.setitem(c, k, v))
    same_state(ctx, interp, d, st, 'original after changing the copy')


def fold_view(ctx, interp, src):
    """(dom, map) terms of the argument mapping, all keys strings."""
    dom, m = ctx.map_terms(interp.map_content(src))
    um.string_keys(ctx, dom)
    return dom, m


def argument(ctx, interp, d):
    """An argument of update or the constructor: any mapping, pairs, keywords, or nothing."""
    way = ctx.choose(5)
    if way == 0:
        src = ctx.any_value('mapping', [dict])
        dom, m = fold_view(ctx, interp, src)
        return [src], {}, dom, m, [src]
    if way == 1:
        src = ctx.obj(CaseInsensitiveDict, 'other map')
        st = um.assume_inv(interp, src)
        return [src], {}, st[0], st[1], [src, interp.getattr(src, 'lowercase_dict')]
    if way == 2:
        k1, k2 = key(ctx, 'k1'), key(ctx, 'k2')
        v1, v2 = ctx.any_value('v1'), ctx.any_value('v2')
        pairs = ctx.new_list([STuple((k1, v1)), STuple((k2, v2))])
        ctx.map_keys.extend([k1.t, k2.t])
        dom = z3.Store(z3.Store(z3.K(Val, z3.BoolVal(False)), k1.t, True), k2.t, True)
        m = z3.Store(z3.Store(z3.K(Val, Val.none), k1.t, v1.t), k2.t, v2.t)
        return [pairs], {}, dom, m, []
    v = ctx.any_value('kw')
    dom = z3.K(Val, z3.BoolVal(False))
    m = z3.K(Val, Val.none)
    if way == 3:
        name = ['key', 'mapping', 'SCOPE'][ctx.choose(3)] if d is not None else 'SCOPE'
        k = Val.str(ctx.strlit(name))
        ctx.map_keys.append(k)
        ctx.assume(um.low(k) == Val.str(ctx.strlit(name.lower())))
        if name == 'mapping':
            return None
        return [], {name: v}, z3.Store(dom, k, True), z3.Store(m, k, v.t), []
    return [None], {}, dom, m, []


def spellings(ctx, dom):
    """Two spellings of one scope among the keys at hand."""
    ks = ctx.map_keys
    return z3.Or([z3.And(dom[a], dom[b], a != b, um.low(a) == um.low(b))
                  for i, a in enumerate(ks) for b in ks[:i]])


@unit('C06', 'construction', covers=['built', 'rejected'])
def u_init(ctx, interp):
    ctx.loop_rules.append(um.Register())
    ctx.ground_maps = True
    a = argument(ctx, interp, None)
    args, kw, dom, m, _ = a
    kind, d = outcome(lambda: interp.call(CaseInsensitiveDict, args, kw))
    if kind == 'raise':
        ctx.cover('rejected')
        ctx.prove('only two spellings of one scope are rejected', spellings(ctx, dom))
        ctx.prove('two spellings are a ValueError', issubclass(d.cls, ValueError))
        return
    ctx.cover('built')
    st = um.prove_inv(interp, d, 'built')
    k = ctx.fresh(Val, 'k')
    um.touch(interp, st, k)
    ctx.prove('the map holds exactly the given pairs', z3.And(
        st[0][k] == dom[k], z3.Implies(dom[k], st[1][k] == m[k])))
    w = key(ctx)
    lookups(ctx, interp, d, w, um.has(interp, st, w.t), um.value(interp, st, w.t), 'built')


def update_unit(inplace):
    def body(ctx, interp):
        d, st = start(ctx, interp)
        a = argument(ctx, interp, d)
        if a is None:
            return
        args, kw, dom, m, others = a
        if inplace and (kw or args[0] is None):
            return
        for o in others:
            ctx.assume(o.t != interp.getattr(d, 'lowercase_dict').t)
            ctx.assume(o.t != d.t)
        if inplace:
            kind, r = outcome(lambda: interp.call(interp.getattr(d, '__ior__'), args))
        else:
            kind, r = outcome(lambda: interp.call(interp.getattr(d, 'update'), args, kw))
        k = ctx.fresh(Val, 'k')
        if kind == 'raise':
            ctx.cover('rejected')
            keys = list(ctx.map_keys)
            ctx.prove('only second spellings are rejected', z3.Or(
                spellings(ctx, dom), *[z3.And(dom[k1], clash(interp, st, k1)) for k1 in keys]))
            ctx.prove('a second spelling is a ValueError', issubclass(r.cls, ValueError))
            same_state(ctx, interp, d, st, 'rejected')
            return
        ctx.cover('updated')
        if inplace:
            ctx.prove('in-place union returns the map itself', ctx.lift(r) == d.t)
        now = um.prove_inv(interp, d, 'updated')
        um.touch(interp, now, k)
        um.touch(interp, st, k)
        ctx.prove('the pairs are added, the others stay', z3.And(
            now[0][k] == z3.Or(st[0][k], dom[k]),
            z3.Implies(dom[k], now[1][k] == m[k]),
            z3.Implies(z3.And(st[0][k], z3.Not(dom[k])), now[1][k] == st[1][k])))
        w = key(ctx)
        lookups(ctx, interp, d, w, um.has(interp, now, w.t), um.value(interp, now, w.t), 'updated')
    return body


unit('C06', 'update', covers=['updated', 'rejected'])(update_unit(False))
unit('C06', 'in-place union', covers=['updated', 'rejected'])(update_unit(True))


@unit('C06', 'iteration and length agree with membership')
def u_iter(ctx, interp):
    d, st = start(ctx, interp)
    n = interp.call(len, [d])
    _, m, el, _ = interp.iterate(d)
    ctx.prove('as many scopes are iterated as the length says', ctx.lift(n) == Val.int(m))
    i, j = ctx.fresh(I, 'i'), ctx.fresh(I, 'j')
    ctx.assume(z3.And(0 <= i, i < m, 0 <= j, j < m))
    x, y = el(i), el(j)
    um.touch(interp, st, x.t, y.t)
    ctx.prove('scopes are strings', z3.And(Val.is_str(x.t), Val.is_str(y.t)))
    ctx.narrow(x.t, [str])
    ctx.narrow(y.t, [str])
    ctx.prove('iterated scopes are found', interp.contains(d, x))
    ctx.prove('iteration gives distinct scopes, whatever their case',
              z3.Implies(um.low(ctx.lift(x)) == um.low(ctx.lift(y)), i == j))
    k = key(ctx)
    ctx.prove('a found scope is iterated', z3.Implies(
        um.has(interp, st, k.t), st[0][st[3][um.low(k.t)]]))


def uids_unit(cls):
    def body(ctx, interp):
        ctx.loop_rules.append(um.Register())
        ctx.ground_maps = True
        o = ctx.obj(cls, 'object')
        old = interp.getattr(o, 'uids')
        st0 = um.assume_inv(interp, old)
        way = ctx.choose(4)
        if way == 0:
            v = ctx.any_value('mapping', [dict])
            dom, m = fold_view(ctx, interp, v)
        elif way == 1:
            v = ctx.obj(CaseInsensitiveDict, 'other map')
            st = um.assume_inv(interp, v)
            dom, m = st[0], st[1]
        elif way == 2:
            k, x = key(ctx), ctx.any_value('id')
            v = STuple((k, x)) if ctx.choose(2) else ctx.new_list([k, x])
            dom = z3.Store(z3.K(Val, z3.BoolVal(False)), k.t, True)
            m = z3.Store(z3.K(Val, Val.none), k.t, x.t)
        else:
            v = None
            dom, m = z3.K(Val, z3.BoolVal(False)), z3.K(Val, Val.none)
        kind, r = outcome(lambda: interp.setattr(o, 'uids', v))
        now = interp.getattr(o, 'uids')
        if kind == 'raise':
            ctx.cover('rejected')
            ctx.prove('only two spellings of one scope are rejected', spellings(ctx, dom))
            ctx.prove('rejected: the previous map stays', ctx.lift(now) == ctx.lift(old))
            return
        ctx.cover('accepted')
        ctx.prove('the identifiers are kept in a case-insensitive map of their own', z3.And(
            clsof(now.t) == UNIVERSE.cid(CaseInsensitiveDict),
            now.t != (ctx.lift(v) if not isinstance(v, STuple) else Val.none)))
        st = um.prove_inv(interp, now, 'assigned')
        q = ctx.fresh(Val, 'q')
        um.touch(interp, st, q)
        ctx.prove('the map holds exactly the given pairs', z3.And(
            st[0][q] == dom[q], z3.Implies(dom[q], st[1][q] == m[q])))
        k2, x2 = key(ctx, 'added scope'), ctx.any_value('added id', [str])
        kind, _ = outcome(lambda: interp.call(interp.getattr(o, 'add_uid'), [k2, x2]))
        if kind == 'ret':
            effect(ctx, interp, interp.getattr(o, 'uids'), st, k2, val=x2.t, tag='add_uid')
        else:
            same_state(ctx, interp, interp.getattr(o, 'uids'), st, 'add_uid rejected')
    return body


def _entity_units():
    from gemd.entity.object import MaterialRun
    from gemd.entity.template import PropertyTemplate
    for c in (MaterialRun, PropertyTemplate):
        unit('C06', f'{c.__name__}.uids = ... and add_uid', covers=['accepted', 'rejected'])(
            uids_unit(c))


_entity_units()

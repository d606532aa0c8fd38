"""C13: links identify their objects."""
import z3

from gemd.entity.base_entity import BaseEntity
from gemd.entity.link_by_uid import LinkByUID

from pyvc.unit import unit, outcome
from pyvc.values import *  # noqa: F401,F403
from pyvc.values import Val

from . import uidmap as um
from .common import instance
from .shapes import ENTITIES, RUNS, SPECS


def entity(ctx, interp, classes=ENTITIES):
    ctx.ground_maps = True
    e = ctx.obj(classes, 'entity')
    d = interp.getattr(e, 'uids')
    st = um.assume_inv(interp, d, e)
    dom, m = st[0], st[1]
    ctx.map_hooks.append((dom, lambda k: z3.Implies(dom[k], Val.is_str(m[k]))))
    return e, d, st


def check_link(ctx, interp, e, d, link, tag):
    """The link names a scope and identifier the object has now, and equals the object."""
    ctx.prove(f'{tag}: a link is made', instance(interp, link, LinkByUID))
    now = um.state(interp, d)
    s, i = ctx.lift(interp.getattr(link, 'scope')), ctx.lift(interp.getattr(link, 'id'))
    ctx.prove(f'{tag}: the object has the scope', um.has(interp, now, s))
    ctx.prove(f'{tag}: with the identifier', um.value(interp, now, s) == i)
    ctx.prove(f'{tag}: the object equals the link', interp.eq(e, link))
    ctx.prove(f'{tag}: the link equals the object', interp.eq(link, e))
    return s, i


def unchanged(ctx, interp, d, st, tag):
    now = um.state(interp, d)
    k = ctx.fresh(Val, 'k')
    um.touch(interp, st, k)
    ctx.prove(f'{tag}: identifiers unchanged', z3.And(
        st[0][k] == now[0][k], z3.Implies(st[0][k], st[1][k] == now[1][k])))


def only_new(ctx, interp, d, st, scope, tag):
    """The only change: one identifier under `scope`."""
    um.prove_inv(interp, d, tag)
    now = um.state(interp, d)
    k = ctx.fresh(Val, 'k')
    um.touch(interp, st, k)
    ctx.prove(f'{tag}: nothing else is added', z3.And(
        now[0][k] == z3.Or(st[0][k], k == scope),
        z3.Implies(st[0][k], st[1][k] == now[1][k])))


def empty(interp, d):
    return interp.eq(interp.call(len, [d]), 0)


@unit('C13', 'LinkByUID.from_entity', covers=['present', 'fallback', 'made'])
def u_from(ctx, interp):
    e, d, st = entity(ctx, interp)
    n0 = interp.decide(empty(interp, d))
    way = ctx.choose(3)
    scope = None if way == 0 else ctx.any_value('scope', [str]) if way == 1 else 'auto'
    ctx.assume(um.low(Val.str(ctx.strlit('auto'))) == Val.str(ctx.strlit('auto')))
    t = Val.str(ctx.strlit('auto')) if scope is None else ctx.lift(scope)
    had = ctx.branch(um.has(interp, st, t))
    kw = {} if way == 0 and ctx.choose(2) else {'scope': scope}
    kind, link = outcome(lambda: interp.call(LinkByUID.from_entity, [e], kw))
    ctx.prove('a link can always be made', kind == 'ret')
    if kind != 'ret':
        return
    s, i = check_link(ctx, interp, e, interp.getattr(e, 'uids'), link, 'from_entity')
    if had:
        ctx.cover('present')
        ctx.prove('the requested scope is used', um.low(s) == um.low(t))
        unchanged(ctx, interp, d, st, 'present')
    elif n0:
        ctx.cover('made')
        ctx.prove('the requested scope is made', s == t)
        only_new(ctx, interp, d, st, t, 'made')
    else:
        ctx.cover('fallback')
        ctx.prove('an existing identifier is used', st[0][s])
        unchanged(ctx, interp, d, st, 'fallback')


@unit('C13', 'to_link', covers=['present', 'fallback', 'none', 'missing'])
def u_to(ctx, interp):
    e, d, st = entity(ctx, interp)
    n0 = interp.decide(empty(interp, d))
    way = ctx.choose(2)
    scope = None if way == 0 else ctx.any_value('scope', [str])
    fb = bool(ctx.choose(2))
    had = scope is not None and ctx.branch(um.has(interp, st, scope.t))
    kw = {'allow_fallback': True} if fb else {}
    args = [scope] if scope is not None or ctx.choose(2) else []
    kind, link = outcome(lambda: interp.call(interp.getattr(e, 'to_link'), args, kw))
    unchanged(ctx, interp, d, st, 'to_link')
    um.prove_inv(interp, d, 'to_link')
    if kind == 'raise':
        ctx.cover('none' if n0 else 'missing')
        ctx.prove('only an identifier that is not there is an error',
                  n0 or (scope is not None and not had and not fb))
        return
    ctx.prove('an object without identifiers has no link', not n0)
    s, i = check_link(ctx, interp, e, d, link, 'to_link')
    if had:
        ctx.cover('present')
        ctx.prove('the requested scope is used', um.low(s) == um.low(scope.t))
    else:
        ctx.cover('fallback')
        ctx.prove('falling back only where allowed', scope is None or fb)


def answer(interp, a, b):
    """The truth of a == b, as Python evaluates it."""
    r = interp.eq(a, b)
    return interp.ctx.lift(r)


@unit('C13', 'object and link compare alike in both directions', covers=['equal', 'different'])
def u_sym(ctx, interp):
    e, d, st = entity(ctx, interp)
    l = ctx.obj(LinkByUID, 'link')
    s, i = ctx.lift(interp.getattr(l, 'scope')), ctx.lift(interp.getattr(l, 'id'))
    um.touch(interp, st, s)
    r1, r2 = answer(interp, e, l), answer(interp, l, e)
    ctx.prove('object == link is link == object', r1 == r2)
    named = z3.And(um.has(interp, st, s), um.value(interp, st, s) == i)
    ctx.prove('they are equal exactly when the object has that identifier',
              r1 == Val.bool(named))
    ctx.cover('equal' if ctx.branch(named) else 'different')
    unchanged(ctx, interp, d, st, 'comparison')


@unit('C13', 'object and pair compare alike in both directions', covers=['equal', 'different'])
def u_pair(ctx, interp):
    e, d, st = entity(ctx, interp)
    s, i = ctx.any_value('scope', [str]), ctx.any_value('id', [str])
    um.touch(interp, st, s.t)
    pair = STuple((s, i))
    r1, r2 = answer(interp, e, pair), answer(interp, pair, e)
    ctx.prove('object == pair is pair == object', r1 == r2)
    named = z3.And(um.has(interp, st, s.t), um.value(interp, st, s.t) == i.t)
    ctx.prove('they are equal exactly when the object has that identifier',
              r1 == Val.bool(named))
    ctx.cover('equal' if ctx.branch(named) else 'different')


@unit('C13', 'links and pairs compare alike in both directions', covers=['equal', 'different'])
def u_link_pair(ctx, interp):
    l = ctx.obj(LinkByUID, 'link')
    s, i = ctx.any_value('scope', [str]), ctx.any_value('id', [str])
    pair = STuple((s, i))
    r1, r2 = answer(interp, l, pair), answer(interp, pair, l)
    ctx.prove('link == pair is pair == link', r1 == r2)
    same = z3.And(ctx.lift(interp.getattr(l, 'scope')) == s.t,
                  ctx.lift(interp.getattr(l, 'id')) == i.t)
    ctx.prove('equal exactly when scope and identifier are', r1 == Val.bool(same))
    ctx.cover('equal' if ctx.branch(same) else 'different')


@unit('C13', 'equal links hash alike', covers=['equal', 'different'])
def u_hash(ctx, interp):
    a, b = ctx.obj(LinkByUID, 'link'), ctx.obj(LinkByUID, 'other link')
    r1, r2 = answer(interp, a, b), answer(interp, b, a)
    ctx.prove('link comparison is symmetric', r1 == r2)
    same = z3.And(*[ctx.lift(interp.getattr(a, f)) == ctx.lift(interp.getattr(b, f))
                    for f in ('scope', 'id')])
    ctx.prove('links are equal exactly when scope and identifier are', r1 == Val.bool(same))
    ha, hb = interp.call(hash, [a]), interp.call(hash, [b])
    ctx.prove('equal links hash alike', z3.Implies(r1 == Val.bool(True),
                                                   ctx.lift(ha) == ctx.lift(hb)))
    ctx.cover('equal' if ctx.branch(same) else 'different')

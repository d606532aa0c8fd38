"""C02: flattened output is complete, duplicate-free and dependency-ordered.

Order: for every kind of object and every kind of object its written fields can hold (read off the
class invariants), the rank of the object is larger than the rank of what it refers to.
flatten: sorts, by that rank, the links-substituted results of a traversal that follows every link
and gives each object exactly when none of its identifiers was met before.
"""
import ast

import z3

import gemd.util.impl as impl
from gemd.entity.object import MaterialRun

from pyvc.ctx import Unsupported
from pyvc.unit import unit, outcome
from pyvc.values import *  # noqa: F401,F403
from pyvc.values import Val, I, B

from .shapes import ENTITIES, TABLE, ContentType, Field, ListOf

BACK = ('_ingredients', '_measurements', '_output_material')


def field_classes(spec):
    if isinstance(spec, ListOf):
        return list(spec.elems) + [c for c in spec.content or () if isinstance(c, type)]
    return [] if isinstance(spec, ContentType) or not isinstance(spec, Field) else spec.classes


def refers_to(cls):
    """The kinds of objects that the written fields of an object of the class can hold."""
    out, seen, todo = [], set(), [(cls, True)]
    while todo:
        c, top = todo.pop()
        for f, spec in TABLE.get(c, {}).items():
            if top and f in BACK:
                continue
            for k in field_classes(spec):
                if k in ENTITIES:
                    if k not in out:
                        out.append(k)
                elif k not in seen:
                    seen.add(k)
                    todo.append((k, False))
    return [c for c in ENTITIES if c in out]


def rank_unit(cls):
    @unit('C02', f'{cls.__name__} is ranked after everything its fields refer to')
    def body(ctx, interp):
        o = ctx.obj(cls, 'o')
        kind, r = outcome(lambda: interp.call(impl.writable_sort_order, [o]))
        ctx.prove('every object has a rank', kind == 'ret')
        if kind != 'ret':
            return
        ctx.prove('the rank by type name is the same',
                  interp.eq(interp.call(impl.writable_sort_order, [interp.getattr(o, 'typ')]), r))
        for k in refers_to(cls):
            s = interp.call(impl.writable_sort_order, [ctx.obj(k, 'd')])
            ctx.prove(f'{cls.__name__} ranks after {k.__name__}', interp.decide(interp.compare(ast.Lt(), s, r)))


for _c in ENTITIES:
    rank_unit(_c)


LINKED = z3.Function('LINKED', Val, Val)
RANK = z3.Function('RANK', Val, I)


def flatten_with(ctx, interp, scope, empty=False):
    """Run flatten over contracts of its callees; returns (outcome, calls, found, known closure)."""
    calls = []
    found = ctx.alloc(list)
    n, arr = ctx.fresh(I, 'nfound'), ctx.fresh(SeqArr, 'found')
    ctx.assume(n >= 0)
    ctx.set_content(found, CSeq(spine=()) if empty else CSeq(n=n, arr=arr))

    def traverse(interp, args, kwargs):
        names = ['obj', 'func']
        kw = dict(zip(names, args), **kwargs)
        calls.append(('traverse', kw))
        return found

    def ids(interp, args, kwargs):
        calls.append(('ids', dict(zip(['obj', 'scope'], args), **kwargs)))

    def linked(interp, args, kwargs):
        ctx.prove('links are substituted into a copy', len(args) == 1 and not kwargs)
        return SV(LINKED(ctx.lift(args[0])))

    def rank(interp, args, kwargs):
        return SV(Val.int(RANK(ctx.lift(args[0]))))
    ctx.func_contracts.update({impl.recursive_flatmap: traverse, impl.set_uuids: ids,
                               impl.substitute_links: linked, impl.writable_sort_order: rank})
    obj = ctx.any_value('structure')
    out = outcome(lambda: interp.call(impl.flatten, [obj] + ([] if scope is None else [scope])))
    return obj, out, calls, (n, arr)


@unit('C02', 'flatten gives everything the traversal found, links substituted, in rank order',
      covers=['scope', 'no scope'])
def u_flatten(ctx, interp):
    scope = ctx.any_value('scope', [str]) if ctx.choose(2) else None
    obj, out, calls, (n, arr) = flatten_with(ctx, interp, scope)
    ctx.cover('scope' if scope is not None else 'no scope')
    ctx.prove('flatten returns', out[0] == 'ret')
    want = [] if scope is None else ['ids']
    ctx.prove('identifiers are assigned first if a scope is given, then one traversal',
              [c[0] for c in calls] == want + ['traverse'])
    if scope is not None:
        ctx.prove('identifiers are assigned to the structure, in the scope',
                  interp.decide(interp.is_(calls[0][1]['obj'], obj))
                  and interp.decide(interp.eq(calls[0][1]['scope'], scope)))
    kw = calls[-1][1]
    ctx.prove('the structure is traversed', interp.decide(interp.is_(kw['obj'], obj)))
    ctx.prove('every link is followed', kw.get('unidirectional', True) is False)
    res = out[1]
    ctx.prove('the result is a list', interp.decide(interp.isinstance_(res, list)))
    m, got = ctx.seq_terms(interp.seq_content(res))
    if not ctx.branch(n > 0):
        ctx.prove('nothing found, nothing given', m == 0)
        return
    ctx.prove('as many as were found', m == n)
    memo = [v for k, v in ctx.memo.items() if k[0] == 'sorted']
    if not memo:
        raise Unsupported("flatten does not sort by a key")
    _, src, to, back, ks = memo[-1]
    i, k = ctx.fresh(I, 'i'), ctx.fresh(I, 'k')
    for a in (i, k):
        ctx.assume(z3.And(0 <= a, a < n))
        ctx.touch(got[a])
        for x in (to(a), back(a), a):
            for s in (ks, src, got):
                interp.instantiate_lemmas(s, x)
    ctx.prove('each is a found object with links substituted', z3.And(
        0 <= to(i), to(i) < n, got[i] == LINKED(arr[to(i)])))
    ctx.prove('each found object is given', z3.And(
        0 <= back(k), back(k) < n, to(back(k)) == k, back(to(k)) == k))
    ctx.assume(i <= k)
    ctx.prove('in the order of the ranks', RANK(got[i]) <= RANK(got[k]))


def captured_sets(interp, closure):
    """The sets a local function keeps between calls."""
    out, env = [], closure.env
    while env is not None:
        for k, v in env.vars.items():
            if isinstance(v, SV) and z3.is_int_value(z3.simplify(Val.a(v.t))) and \
                    interp.category(v) == 'set':
                out.append((k, v))
        env = env.parent
    return out


@unit('C02', 'each object is given exactly when no identifier of it was met before',
      covers=['new', 'met', 'no identifier'])
def u_once(ctx, interp):
    _, _, calls, _ = flatten_with(ctx, interp, None, empty=True)
    func = calls[-1][1]['func']
    known = captured_sets(interp, func) if isinstance(func, Closure) else []
    if len(known) != 1:
        raise Unsupported("the identifiers met so far are not kept in one set")
    known = known[0][1]
    dom0 = ctx.fresh(DomArr, 'met')
    ctx.set_content(known, CSet(dom=dom0))
    e = ctx.obj(MaterialRun, 'e')
    uids = interp.getattr(e, 'uids')
    dom, m = ctx.map_terms(interp.map_content(uids))
    # scopes are texts (C06)
    ctx.map_hooks.append((dom, lambda k: z3.Implies(dom[k], Val.is_str(k))))
    kind, out = outcome(lambda: interp.call(func, [e]))
    met = interp.set_content_of(known)
    k = ctx.any_value('k', [str])
    ctx.inst_map(dom, k.t)
    pair = ctx.lift(STuple([k, SV(z3.simplify(m[k.t]))]))
    interp.dom_order(dom)
    if kind == 'raise':
        ctx.cover('no identifier')
        ctx.prove('only an object without identifiers is refused', z3.Not(dom[k.t]))
        ctx.prove('it is a ValueError', issubclass(out.cls, ValueError))
        return
    ctx.prove('what is given is a list', interp.decide(interp.isinstance_(out, list)))
    c = interp.seq_content(out)
    n, arr = ctx.seq_terms(c)
    x = ctx.fresh(Val, 'x')
    if met.dom is None:
        raise Unsupported("the identifiers met are not kept")
    ctx.prove('what was met stays met', z3.Implies(dom0[x], met.dom[x]))
    ctx.prove('its identifiers are met now', z3.Implies(dom[k.t], met.dom[pair]))
    h, t = z3.simplify(Val.hd(x)), z3.simplify(Val.hd(Val.tl(x)))
    ctx.prove('nothing else is met now', z3.Implies(z3.And(met.dom[x], z3.Not(dom0[x])),
                                                    z3.And(dom[h], m[h] == t)))
    if ctx.branch(n == 0):
        ctx.cover('met')
        ks = z3.Const('k!any', Val)
        ctx.prove('an object is left out only if one of its identifiers was met', z3.Exists(
            [ks], z3.And(dom[ks], dom0[Val.tcons(ks, Val.tcons(m[ks], Val.tnil))])))
        return
    ctx.cover('new')
    ctx.prove('the object itself is given, once', z3.And(n == 1, arr[0] == ctx.lift(e)))
    ctx.prove('none of its identifiers was met before', z3.Implies(dom[k.t], z3.Not(dom0[pair])))
    ctx.prove('it has an identifier', n_ids(interp, dom) > 0)


def n_ids(interp, dom):
    return interp.dom_order(dom)[0]

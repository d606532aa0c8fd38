"""C03: traversal reaches every entity exactly once.

The two traversals are worklist loops.  Their loop invariant is proved by one step from an arbitrary
state (any worklist with the item about to be taken, any set of items already met, any results so
far) for every kind of item:

* the rest of the worklist stays on it;
* an item met before is dropped: nothing is added, the function is not called;
* otherwise the item is recorded as met (if it can be hashed), everything it holds goes on the
  worklist and nothing else does, and the function is called with it exactly once if it is an entity
  and not at all otherwise.

The closing lemma turns the step into the statement: when the worklist is empty, what was met
contains the structure and everything reachable from it, and only that.
"""
import ast
import uuid

import z3

import gemd.util.impl as impl
from gemd.entity.base_entity import BaseEntity
from gemd.entity.bounds_validation import WarningLevel
from gemd.entity.case_insensitive_dict import CaseInsensitiveDict
from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.object import MaterialRun
from gemd.enumeration import Origin

from pyvc.ctx import PathAbort, PyRaise, Unsupported
from pyvc.interp import BreakEx, ContinueEx
from pyvc.models import TUPLE_HASHABLE
from pyvc.unit import unit, outcome
from pyvc.values import *  # noqa: F401,F403
from pyvc.values import Val, I, B

from . import uidmap as um
from .shapes import ENTITIES, GEMD, TABLE

CONTAINERS = (list, tuple, set, dict)
SCALARS = (str, int, float, bool, type(None), bytes, Origin)


def visit(entity):
    """The function applied by the traversal (replaced by its contract)."""


class Worklist:
    """while <worklist>: one step from an arbitrary state, or the state after the last step."""

    def __init__(self, start, item, after_step):
        self.start, self.item, self.after_step, self.n_loops = start, item, after_step, 0

    def match_while(self, interp, stmt, env):
        names = [x.id for x in ast.walk(stmt.test) if isinstance(x, ast.Name)]
        names = [x for x in names if isinstance(env.vars.get(x), SV)
                 and env.fn is not None]
        self.names = names
        return len(names) == 1

    def locals_(self, interp, env):
        queue = env.vars[self.names[0]]
        sets, lists = [], []
        for k, v in env.vars.items():
            if isinstance(v, SV) and z3.is_int_value(z3.simplify(Val.a(v.t))):
                cat = interp.category(v)
                if cat == 'set':
                    sets.append(v)
                elif cat == 'seq' and not z3.eq(v.t, queue.t):
                    lists.append(v)
        if len(sets) != 1 or len(lists) > 1 or interp.category(queue) != 'seq':
            raise Unsupported("the state of the traversal is not kept in the expected containers")
        return queue, sets[0], lists[0] if lists else None

    def run_while(self, interp, stmt, env):
        ctx = interp.ctx
        self.n_loops += 1
        queue, seen, res = self.locals_(interp, env)
        c = interp.seq_content(queue)
        ctx.prove('the worklist starts with the structure',
                  c.spine is not None and len(c.spine) == 1
                  and interp.decide(interp.is_(c.spine[0], self.start)))
        s = interp.set_content_of(seen)
        ctx.prove('nothing has been met at the start', s.spine is not None and not s.spine)
        if res is not None:
            r = interp.seq_content(res)
            ctx.prove('there are no results at the start', r.spine is not None and not r.spine)
        last = ctx.choose(2) == 0
        dom = ctx.fresh(DomArr, 'seen')
        ctx.set_content(seen, CSet(dom=dom))
        nres, ares = ctx.fresh(I, 'nres'), ctx.fresh(SeqArr, 'res')
        if res is not None:
            ctx.assume(nres >= 0)
            ctx.set_content(res, CSeq(n=nres, arr=ares))
        if last:
            ctx.set_content(queue, CSeq(spine=()))
            ctx.cover('end')
            for k in list(env.vars):
                if env.vars[k] not in (queue, seen, res) and self.assigned(stmt, k):
                    env.vars[k] = Poison("assigned in the loop")
            self.results = res
            return
        n, arr = ctx.fresh(I, 'nqueue'), ctx.fresh(SeqArr, 'queue')
        ctx.assume(n >= 1)
        ctx.assume(arr[n - 1] == ctx.lift(self.item))
        ctx.set_content(queue, CSeq(n=n, arr=z3.Store(arr, n - 1, ctx.lift(self.item))))
        if not interp.decide(interp.truth(interp.eval(stmt.test, env))):
            ctx.prove('the loop goes on while there is work', False)
            return
        state = dict(queue=queue, seen=seen, res=res, dom=dom, nres=nres, ares=ares,
                     n=z3.simplify(n - 1), arr=arr)
        try:
            interp.exec_block(stmt.body, env)
        except ContinueEx:
            pass
        except BreakEx:
            ctx.prove('the loop is not left while there is work', False)
        except PyRaise as e:
            ctx.prove(f'no item makes the traversal fail ({e.exc.cls.__name__})', False)
        self.after_step(state)
        raise PathAbort()

    @staticmethod
    def assigned(stmt, name):
        return any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store)
                   for x in ast.walk(stmt))


def children(ctx, interp, item, cls, skip):
    """What an item holds: ('some', [values]) or ('many', [(count, element at index), ...])."""
    if cls in SCALARS:
        return 'none', []
    if cls is CaseInsensitiveDict or cls is dict:
        dom, m = ctx.map_terms(interp.map_content(item))
        n, arr = interp.dom_order(dom)

        def key(i):
            ctx.assume(z3.Implies(z3.And(0 <= i, i < n), dom[arr[i]]))
            return arr[i]
        return 'many', n, [key, lambda i: m[key(i)]]
    if cls is set:
        n, arr = interp.dom_order(interp.set_content_of(item).dom)
        return 'many', n, [lambda i: arr[i]]
    if cls in (list, tuple):
        n, arr = ctx.seq_terms(interp.seq_content(item))
        return 'many', n, [lambda i: arr[i]]
    return 'some', [interp.getattr(item, f) for f in TABLE[cls] if f not in skip]


def some_item(ctx, cls):
    if cls in TABLE:
        return ctx.obj(cls, 'item')
    if cls is Origin:
        return list(Origin)[ctx.choose(2)]
    if cls is tuple:
        t = ctx.alloc(tuple)
        n, arr = ctx.fresh(I, 'n'), ctx.fresh(SeqArr, 'items')
        ctx.assume(n >= 0)
        ctx.set_content(t, CSeq(n=n, arr=arr))
        return t
    return ctx.any_value('item', [cls])


def step_unit(func, cls, label, kwargs, follow_all):
    covers = ['end', 'taken'] + (['met'] if cls not in (list, dict, set, CaseInsensitiveDict)
                                 else [])

    @unit('C03', f'{label}: a step that takes a {cls.__name__}', covers=covers)
    def body(ctx, interp):
        start = ctx.any_value('structure')
        item = some_item(ctx, cls)
        skip = () if follow_all or cls not in ENTITIES else cls.skip
        kids = children(ctx, interp, item, cls, skip)
        calls = []
        given = ctx.alloc(list)
        ng, ag = ctx.fresh(I, 'ngiven'), ctx.fresh(SeqArr, 'given')
        ctx.assume(ng >= 0)
        ctx.set_content(given, CSeq(n=ng, arr=ag))

        def visited(interp, args, kw):
            calls.append(args)
            return given if func is impl.recursive_flatmap else None
        ctx.func_contracts[visit] = visited
        it = ctx.lift(item)

        def after(st):
            hashable = cls.__hash__ is not None
            if cls is tuple:
                hashable = ctx.branch(TUPLE_HASHABLE(it))
            key = interp.keyterm(item) if hashable else None
            met = interp.set_content_of(st['seen'])
            x = ctx.fresh(Val, 'x')
            m, new = ctx.seq_terms(interp.seq_content(st['queue']))
            n, old = st['n'], st['arr']
            q = ctx.fresh(I, 'q')
            ctx.prove('the rest of the worklist stays on it',
                      z3.And(m >= n, z3.Implies(z3.And(0 <= q, q < n), new[q] == old[q])))
            if hashable and ctx.branch(st['dom'][key]):
                ctx.cover('met')
                ctx.prove('nothing is called for an item met before', not calls)
                ctx.prove('an item met before adds nothing to the worklist', m == n)
                ctx.prove('what was met is unchanged', met.dom[x] == st['dom'][x])
                want = 0
            else:
                ctx.cover('taken')
                if hashable:
                    ctx.prove('the item is recorded as met, nothing else is',
                              met.dom[x] == z3.Or(st['dom'][x], x == key))
                else:
                    ctx.prove('nothing is recorded', met.dom[x] == st['dom'][x])
                want = 1 if cls in ENTITIES else 0
                ctx.prove('the function is called once for an entity, never for anything else',
                          len(calls) == want)
                ctx.prove('the function is called with the item', all(
                    len(a) == 1 and interp.decide(interp.is_(a[0], item)) for a in calls))
                holds(ctx, interp, kids, n, m, new)
            if st['res'] is not None:
                k, res = ctx.seq_terms(interp.seq_content(st['res']))
                ctx.prove('one result list is added per call',
                          k == (st['nres'] + ng if want else st['nres']))
                ctx.prove('earlier results stay', z3.Implies(
                    z3.And(0 <= q, q < st['nres']), res[q] == st['ares'][q]))
                if want:
                    ctx.prove('the results of the call are added', z3.Implies(
                        z3.And(0 <= q, q < ng), res[z3.simplify(st['nres'] + q)] == ag[q]))
        rule = Worklist(start, item, after)
        ctx.while_rules = [rule]
        ctx.text_iteration = True
        kind, out = outcome(lambda: interp.call(func, [start, visit], dict(kwargs)))
        ctx.prove('the traversal ends normally', kind == 'ret')
        ctx.prove('there is one worklist', rule.n_loops == 1)
        if func is impl.recursive_flatmap:
            ctx.prove('the results are returned',
                      rule.results is not None and interp.decide(interp.is_(out, rule.results)))
        else:
            ctx.prove('nothing is returned', out is None)


def holds(ctx, interp, kids, n, m, new):
    """Everything the item holds is now on the worklist, after its first n entries, and only that."""
    q, i = ctx.fresh(I, 'q'), ctx.fresh(I, 'i')
    if kids[0] == 'none':
        # taking a text apart into texts is harmless
        interp.instantiate_lemmas(new, q)
        ctx.prove('nothing that could hold an entity goes on the worklist', z3.Implies(
            z3.And(n <= q, q < m), z3.Or(Val.is_str(new[q]), Val.is_int(new[q]))))
        return
    if kids[0] == 'some':
        vals = [ctx.lift(v) for v in kids[1]]
        ctx.prove('as many items are added as the item holds', m == n + len(vals))
        at = [z3.simplify(new[z3.simplify(n + p)]) for p in range(len(vals))]
        for v in vals:
            ctx.prove('what the item holds goes on the worklist', z3.Or([a == v for a in at]))
        for a in at:
            ctx.prove('nothing else goes on the worklist', z3.Or([a == v for v in vals]))
        return
    _, size, parts = kids
    k = len(parts)
    ctx.prove('as many items are added as the item holds', m == n + k * size)
    ctx.assume(z3.And(0 <= i, i < size))
    for p, part in enumerate(parts):
        spots = [n + p * size + i, m - 1 - (p * size + i), n + k * i + p, n + (k - 1 - p) * size + i]
        for s in spots:
            interp.instantiate_lemmas(new, z3.simplify(s))
        ctx.prove('what the item holds goes on the worklist',
                  z3.Or([new[s] == part(i) for s in spots]))
    ctx.assume(z3.And(n <= q, q < m))
    opts = []
    for p, part in enumerate(parts):
        for j in (q - n - p * size, m - 1 - q - p * size, q - n - (k - 1 - p) * size,
                  *([(q - n) / k] if k > 1 else [])):
            opts.append(z3.And(0 <= j, j < size, new[q] == part(j)))
    interp.instantiate_lemmas(new, q)
    ctx.prove('nothing else goes on the worklist', z3.Or(opts))


KINDS = GEMD + (CaseInsensitiveDict,) + CONTAINERS + SCALARS
for _f, _label, _kw, _all in (
        (impl.recursive_foreach, 'foreach', {}, True),
        (impl.recursive_flatmap, 'flatmap', {}, False),
        (impl.recursive_flatmap, 'flatmap both ways', {'unidirectional': False}, True)):
    for _c in KINDS:
        step_unit(_f, _c, _label, _kw, _all)


# ---------------------------------------------------------------- the closing argument
@unit('C03', 'the proved steps imply that everything reachable, and only that, is met once',
      covers=['step', 'start', 'end'], shapes=False)
def u_closure(ctx, interp):
    """A lemma over the step contracts, with no code in it: T is what was taken, W the worklist."""
    X = z3.DeclareSort('Thing')
    holds_ = z3.Function('holds', X, X, B)
    hashable, entity, reach = (z3.Function(n, X, B) for n in ('hashable', 'entity', 'reach'))
    start, x, y = z3.Const('start', X), z3.Const('x', X), z3.Const('y', X)
    ctx.assume(z3.ForAll([x], z3.Implies(entity(x), hashable(x)), patterns=[entity(x)]))
    # reachable: the least set that contains the structure and what its members hold
    ctx.assume(reach(start))
    ctx.assume(z3.ForAll([x, y], z3.Implies(z3.And(reach(x), holds_(x, y)), reach(y)),
                         patterns=[z3.MultiPattern(reach(x), holds_(x, y))]))

    def inv(T, W, calls):
        return [('the structure is met or waiting', z3.Or(T(start), W(start))),
                ('what was met has all it holds met or waiting', z3.ForAll([x, y], z3.Implies(
                    z3.And(T(x), holds_(x, y)), z3.Or(T(y), W(y))))),
                ('only reachable things are met or waiting', z3.ForAll([x], z3.Implies(
                    z3.Or(T(x), W(x)), reach(x)))),
                ('called once for an entity met, never otherwise', z3.ForAll([x], calls(x) == z3.If(
                    z3.And(entity(x), T(x)), 1, 0)))]
    what = ctx.choose(3)
    if what == 0:
        ctx.cover('start')
        for label, f in inv(lambda a: z3.BoolVal(False), lambda a: a == start,
                            lambda a: z3.IntVal(0)):
            ctx.prove(f'at the start: {label}', f)
        return
    T, W = z3.Function('T', X, B), z3.Function('W', X, B)
    calls = z3.Function('calls', X, I)
    for _, f in inv(T, W, calls):
        ctx.assume(f)
    if what == 1:
        ctx.cover('end')
        ctx.assume(z3.ForAll([x], z3.Not(W(x)), patterns=[W(x)]))
        # least: every set closed under 'holds' that has the structure contains what is reachable
        ctx.prove('what was met contains the structure', T(start))
        ctx.prove('what was met is closed', z3.ForAll([x, y], z3.Implies(
            z3.And(T(x), holds_(x, y)), T(y))))
        ctx.assume(z3.ForAll([x], z3.Implies(reach(x), T(x)), patterns=[reach(x)]))
        ctx.prove('called exactly once for each reachable entity and never otherwise', z3.ForAll(
            [x], calls(x) == z3.If(z3.And(entity(x), reach(x)), 1, 0)))
        return
    ctx.cover('step')
    it = z3.Const('it', X)
    ctx.assume(W(it))
    W2, T2 = z3.Function('W2', X, B), z3.Function('T2', X, B)
    calls2 = z3.Function('calls2', X, I)
    met = z3.And(hashable(it), T(it))
    # the step contract: the rest stays; an item met adds nothing; otherwise what it holds is added
    ctx.assume(z3.ForAll([x], z3.Implies(z3.And(W(x), x != it), W2(x)), patterns=[W(x)]))
    ctx.assume(z3.ForAll([x], z3.Implies(z3.And(met, W2(x)), W(x)), patterns=[W2(x)]))
    ctx.assume(z3.ForAll([x], z3.Implies(z3.And(z3.Not(met), holds_(it, x)), W2(x)),
                         patterns=[holds_(it, x)]))
    ctx.assume(z3.ForAll([x], z3.Implies(z3.And(z3.Not(met), W2(x)), z3.Or(W(x), holds_(it, x))),
                         patterns=[W2(x)]))
    ctx.assume(z3.ForAll([x], T2(x) == z3.Or(T(x), x == it), patterns=[T2(x)]))
    ctx.assume(z3.ForAll([x], calls2(x) == calls(x) + z3.If(
        z3.And(z3.Not(met), entity(it), x == it), 1, 0), patterns=[calls2(x)]))
    for label, f in inv(T2, W2, calls2):
        ctx.prove(f'after a step: {label}', f)


# ---------------------------------------------------------------- identifiers
def ids_unit(cls):
    @unit('C03', f'identifiers are assigned to a {cls.__name__} that has none, and only then',
          covers=['none', 'some'])
    def body(ctx, interp):
        calls = []

        def each(interp, args, kwargs):
            calls.append(dict(zip(['obj', 'func'], args), **kwargs))
        ctx.func_contracts[impl.recursive_foreach] = each
        new = ctx.any_value('identifier', [str])
        ctx.func_contracts[uuid.uuid4] = lambda interp, args, kw: new
        structure = ctx.any_value('structure')
        scope = ctx.any_value('scope', [str])
        ctx.prove('a structure is accepted',
                  outcome(lambda: interp.call(impl.set_uuids, [structure, scope]))[0] == 'ret')
        ctx.prove('the structure is traversed once', len(calls) == 1 and interp.decide(
            interp.is_(calls[0]['obj'], structure)))
        e = ctx.obj(cls, 'e')
        uids = interp.getattr(e, 'uids')
        um.assume_inv(interp, uids)
        before = {f: interp.getattr(e, f) for f in TABLE[cls]}
        n0 = interp.dom_order(um.state(interp, uids)[0])[0]
        empty = ctx.branch(n0 == 0)
        st0 = um.state(interp, uids)
        kind, _ = outcome(lambda: interp.call(calls[0]['func'], [e]))
        ctx.prove('no object is refused', kind == 'ret')
        for f, v in before.items():
            ctx.prove(f'{f} is left as it was', interp.decide(interp.is_(interp.getattr(e, f), v)))
        st = um.state(interp, uids)
        k = ctx.fresh(Val, 'k')
        um.touch(interp, st0, k)
        um.touch(interp, st, k)
        if empty:
            ctx.cover('none')
            ctx.prove('one identifier in the given scope is assigned, no other',
                      st[0][k] == (k == ctx.lift(scope)))
            ctx.prove('the identifier is the new one', st[1][ctx.lift(scope)] == ctx.lift(new))
        else:
            ctx.cover('some')
            ctx.prove('existing identifiers stay, none is added', z3.And(
                st[0][k] == st0[0][k], z3.Implies(st0[0][k], st[1][k] == st0[1][k])))


LINK_TO = z3.Function('LINK_TO', Val, Val, I)


def new_link(interp, args, kwargs):
    """A new link is an object of its class with these two fields (proved under C18); which object
    it is does not matter to an index, whose keys compare by value."""
    ctx = interp.ctx
    kw = dict(zip(['scope', 'id'], args), **kwargs)
    a = LINK_TO(ctx.lift(kw['scope']), ctx.lift(kw['id']))
    link = SV(Val.ref(a))
    ctx.assume(z3.And(a > 0, clsof(link.t) == UNIVERSE.cid(LinkByUID)))
    ctx.touch(link.t)
    for f in ('scope', 'id'):
        ctx.assume(ctx.lift(interp.getattr(link, f)) == ctx.lift(kw[f]))
    return link


def index_with(ctx, interp, found):
    calls = []

    def traverse(interp, args, kwargs):
        calls.append(dict(zip(['obj', 'func'], args), **kwargs))
        return found
    ctx.func_contracts[impl.recursive_flatmap] = traverse
    ctx.func_contracts[LinkByUID] = new_link
    structure = ctx.any_value('structure')
    kind, idx = outcome(lambda: interp.call(impl.make_index, [structure]))
    ctx.prove('a structure is accepted', kind == 'ret')
    ctx.prove('the structure is traversed once', len(calls) == 1 and interp.decide(
        interp.is_(calls[0]['obj'], structure)))
    return calls[0], idx


def pairs_unit(cls):
    @unit('C03', f'the index lists every identifier of a {cls.__name__} with the object',
          covers=['some', 'none'])
    def body(ctx, interp):
        found = ctx.alloc(list)
        ctx.set_content(found, CSeq(spine=()))
        call, _ = index_with(ctx, interp, found)
        e = ctx.obj(cls, 'e')

        def stored(interp, args, kwargs):
            """A scope in its stored spelling maps to its identifier (C06)."""
            d, m = ctx.map_terms(interp.map_content(args[0]))
            k = interp.keyterm(args[1])
            if not ctx.branch(d[k]):
                raise Unsupported("an identifier is looked up in a scope not stored")
            return SV(z3.simplify(m[k]))
        ctx.func_contracts[CaseInsensitiveDict.__getitem__] = stored
        uids = interp.getattr(e, 'uids')
        dom, m = ctx.map_terms(interp.map_content(uids))
        ctx.map_hooks.append((dom, lambda k: z3.Implies(dom[k], Val.is_str(k))))
        nk, order = interp.dom_order(dom)
        kind, out = outcome(lambda: interp.call(call['func'], [e]))
        ctx.prove('no object is refused', kind == 'ret')
        it = interp.iterate(out)
        if it[0] == 'spine':
            ctx.cover('none')
            ctx.prove('nothing is listed only for an object without identifiers',
                      z3.And(nk == 0, len(it[1]) == 0))
            return
        _, n, el, _ = it
        ctx.prove('as many entries as identifiers', n == nk)
        if not ctx.branch(n > 0):
            ctx.cover('none')
            return
        ctx.cover('some')
        i = ctx.fresh(I, 'i')
        ctx.assume(z3.And(0 <= i, i < n))
        ctx.inst_map(dom, order[i])
        pair = el(i)
        if isinstance(pair, STuple):
            ctx.prove('an entry is a pair', len(pair.items) == 2)
            link, target = pair.items
        else:
            t = z3.simplify(pair.t)
            if t.decl().kind() == z3.Z3_OP_SELECT:
                interp.instantiate_lemmas(t.arg(0), t.arg(1))
            ctx.prove('an entry is a pair', z3.And(
                Val.is_tcons(t), Val.is_tcons(Val.tl(t)), Val.is_tnil(Val.tl(Val.tl(t)))))
            link, target = SV(z3.simplify(Val.hd(t))), SV(z3.simplify(Val.hd(Val.tl(t))))
            ctx.touch(link.t)
            ctx.touch(target.t)
        ctx.prove('an entry refers to the object', interp.decide(interp.is_(target, e)))
        ctx.prove('an entry is a link', interp.decide(interp.isinstance_(link, LinkByUID)))
        ctx.prove('the link has the scope and the identifier of the object', z3.And(
            ctx.lift(interp.getattr(link, 'scope')) == order[i],
            ctx.lift(interp.getattr(link, 'id')) == m[order[i]]))


for _c in ENTITIES:
    ids_unit(_c)
    pairs_unit(_c)


@unit('C03', 'the index has exactly the entries the traversal lists', covers=['some', 'none'])
def u_index(ctx, interp):
    found = ctx.alloc(list)
    n = ctx.fresh(I, 'n')
    ctx.assume(n >= 0)
    q = z3.Const('q!pair', I)
    key = z3.Function('LINK', I, Val)
    target = z3.Function('TARGET', I, Val)
    arr = z3.Lambda([q], Val.tcons(key(q), Val.tcons(target(q), Val.tnil)))
    ctx.set_content(found, CSeq(n=n, arr=arr))
    links = ctx.memo.setdefault(('links',), {})

    touch = ctx.touch

    def touched(t, *args):
        if t.decl().name() == 'LINK' and t.get_id() not in links:
            links[t.get_id()] = t
            ctx.assume(z3.And(Val.is_ref(t), Val.a(t) > 0,
                              clsof(t) == UNIVERSE.cid(LinkByUID)))
        return touch(t, *args)
    ctx.touch = touched
    _, idx = index_with(ctx, interp, found)
    ctx.prove('the index is a mapping', interp.decide(interp.isinstance_(idx, dict)))
    dom, m = ctx.map_terms(interp.map_content(idx))
    if not ctx.branch(n > 0):
        ctx.cover('none')
        x = ctx.fresh(Val, 'x')
        ctx.prove('nothing listed, nothing in the index', z3.Not(dom[x]))
        return
    ctx.cover('some')
    i = ctx.fresh(I, 'i')
    ctx.assume(z3.And(0 <= i, i < n))
    interp.instantiate_lemmas(arr, i)
    ctx.touch(arr[i])
    k = z3.simplify(interp.keyterm(SV(key(i))))
    ctx.prove('each link listed is in the index', dom[k])
    kv = z3.Const('k!idx', Val)
    j = z3.Const('j!idx', I)
    x = ctx.fresh(Val, 'x')
    ctx.prove('an entry of the index is one listed', z3.Implies(dom[x], z3.Exists([j], z3.And(
        0 <= j, j < n, m[x] == target(j)))))

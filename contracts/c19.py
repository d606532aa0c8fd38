"""C19: instantiating a specification mirrors its graph.

The recursive function inside make_instance is proved by one call on an arbitrary specification in an
arbitrary state of its record (runs made so far), its recursive calls replaced by the contract being
proved (induction on the depth of the calls).  The assignments to the writable sides of two-way links
are replaced by their contracts (C04: afterwards the two sides agree), so that what is proved here is
which links are made.  The closing lemma turns the step into the statement about graphs.
"""
import z3

from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.object import (IngredientRun, IngredientSpec, MaterialRun, MaterialSpec,
                                MeasurementRun, MeasurementSpec, ProcessRun, ProcessSpec)
from gemd.entity.util import make_instance

from pyvc.ctx import Unsupported
from pyvc.unit import unit, outcome
from pyvc.values import *  # noqa: F401,F403
from pyvc.values import UNIVERSE, Val, I, B

from .common import eq_contract
from .shapes import GEMD, TABLE

RUN = {IngredientSpec: IngredientRun, MaterialSpec: MaterialRun, MeasurementSpec: MeasurementRun,
       ProcessSpec: ProcessRun}
# the links followed from each kind of specification, and the writable side set on its run
FOLLOW = {MaterialSpec: 'process', IngredientSpec: 'material'}
RUN_OF = z3.Function('RUN_OF', Val, Val)


class Step:
    """One call of the recursive function on an arbitrary specification."""

    def __init__(self, ctx, interp):
        self.ctx, self.interp = ctx, interp
        ctx.recursion = lambda *a: NotImplemented
        leaf = ctx.obj(MeasurementSpec, 'leaf')
        kind, run = outcome(lambda: interp.call(make_instance, [leaf]))
        ctx.prove('a specification can be instantiated', kind == 'ret')
        ctx.prove('the run of the given specification is returned',
                  interp.decide(interp.isinstance_(run, MeasurementRun))
                  and interp.decide(interp.is_(interp.getattr(run, 'spec'), leaf)))
        closures = ctx.memo.get(('closures',), [])
        if not closures:
            raise Unsupported("make_instance has no local function")
        self.func = closures[0]
        maps, env = [], self.func.env
        while env is not None:
            maps += [v for v in env.vars.values() if isinstance(v, SV)
                     and z3.is_int_value(z3.simplify(Val.a(v.t))) and interp.category(v) == 'map']
            env = env.parent
        if len(maps) != 1:
            raise Unsupported("the runs made so far are not kept in one mapping")
        self.seen = maps[0]
        d, m = ctx.map_terms(interp.map_content(self.seen))
        one = interp.keyterm(interp.builtin_models[id(id)](interp, leaf)) \
            if id(id) in interp.builtin_models else None
        if one is None:
            raise Unsupported("identity is not modelled")
        ctx.prove('the run is recorded under the identity of its specification',
                  z3.And(d[one], m[one] == ctx.lift(run)))
        self.dom0, self.map0 = ctx.fresh(DomArr, 'seen'), ctx.fresh(MapArr, 'runs')
        ctx.set_content(self.seen, CMap(dom=self.dom0, map=self.map0))
        # ghost state: what was visited and what the writable sides were set to
        self.visited = ctx.new_dict([])
        self.set_ = {}
        for cls, attr in ((MaterialRun, 'process'), (IngredientRun, 'material'),
                          (IngredientRun, 'process')):
            self.set_[cls, attr] = g = ctx.new_dict([])
            ctx.func_contracts[getattr(cls, attr).fset] = self.setter(g)
        ctx.recursion = self.nested
        self.spec = None

    def setter(self, ghost):
        def contract(interp, args, kwargs):
            # every constructor starts by clearing the link
            if args[1] is not None:
                interp.setitem(ghost, args[0], args[1])
        return contract

    def identity(self, x):
        return self.interp.keyterm(self.interp.builtin_models[id(id)](self.interp, x))

    def nested(self, interp, f, vars_):
        if f is not self.func:
            return NotImplemented
        ctx = self.ctx
        x = list(vars_.values())[0]
        d, m = ctx.map_terms(interp.map_content(self.seen))
        me = self.identity(self.spec)
        ctx.prove('a run is recorded before what its specification refers to is visited', d[me])
        kinds = ctx.candidates(x) if isinstance(x, SV) else {type(x)}
        for k in RUN:
            if k in kinds and interp.decide(interp.isinstance_(x, k)):
                run = SV(RUN_OF(x.t))
                a = Val.a(run.t)
                ctx.assume(z3.And(Val.is_ref(run.t), a > 0,
                                  clsof(run.t) == UNIVERSE.cid(RUN[k])))
                ctx.touch(run.t)
                interp.setitem(self.visited, x, True)
                return run
        interp.raise_(TypeError, "not a specification")

    def entries(self, ghost):
        return self.ctx.map_terms(self.interp.map_content(ghost))


def run_step(ctx, interp, spec, known):
    st = Step(ctx, interp)
    st.spec = spec
    me = st.identity(spec)
    ctx.assume(st.dom0[me] if known else z3.Not(st.dom0[me]))
    st.me = me
    kind, out = outcome(lambda: interp.call(st.func, [spec]))
    return st, kind, out


def step_unit(cls):
    link = FOLLOW.get(cls)
    covers = ['linked', 'not linked', 'a link by identifier'] if link else \
        ['linked', 'a link by identifier'] if cls is ProcessSpec else ['leaf']

    @unit('C19', f'one run mirrors a {cls.__name__}', covers=covers)
    def body(ctx, interp):
        ctx.func_contracts.update(eq_contract())
        spec = ctx.obj(cls, 'spec')
        before = {f: interp.getattr(spec, f) for f in TABLE[cls]}
        target = interp.getattr(spec, link) if link else None
        if cls is ProcessSpec:
            items = interp.seq_content(interp.getattr(spec, 'ingredients'))
            n, arr = ctx.seq_terms(items)
        st, kind, run = run_step(ctx, interp, spec, False)
        for f, v in before.items():
            ctx.prove(f'the specification keeps its {f}',
                      interp.decide(interp.is_(interp.getattr(spec, f), v)))
        if kind == 'raise':
            ctx.cover('a link by identifier')
            ctx.prove('only what is not a specification is refused, with a TypeError',
                      issubclass(run.cls, TypeError))
            if link:
                ctx.prove('it refers to a link', interp.decide(interp.isinstance_(target, LinkByUID)))
            elif cls is ProcessSpec:
                q = z3.Const('q!link', I)
                ctx.prove('an ingredient is a link', z3.Exists([q], z3.And(
                    0 <= q, q < n, clsof(arr[q]) == UNIVERSE.cid(LinkByUID))))
            else:
                ctx.prove('nothing it refers to can be refused', False)
            return
        ctx.prove('the run is of the matching kind',
                  interp.decide(ctx.type_test(run, lambda c: c is RUN[cls])))
        ctx.prove('the run is new', Val.a(ctx.lift(run)) < 0)
        ctx.prove('the run refers to its specification',
                  interp.decide(interp.is_(interp.getattr(run, 'spec'), spec)))
        d, m = ctx.map_terms(interp.map_content(st.seen))
        k = ctx.fresh(Val, 'k')
        ctx.prove('the run is recorded, other records stay', z3.And(
            d[k] == z3.Or(st.dom0[k], k == st.me), m[st.me] == ctx.lift(run),
            z3.Implies(st.dom0[k], m[k] == st.map0[k])))
        vis, _ = st.entries(st.visited)
        r, x = ctx.lift(run), ctx.fresh(Val, 'x')
        for (c, a), g in st.set_.items():
            gd, gm = st.entries(g)
            if (c, a) == (RUN[cls], link):
                if interp.decide(interp.is_(target, None)):
                    ctx.cover('not linked')
                    ctx.prove(f'{c.__name__}.{a} is left empty', z3.Not(gd[x]))
                    ctx.prove('nothing else is visited', z3.Not(vis[x]))
                else:
                    ctx.cover('linked')
                    t = ctx.lift(target)
                    ctx.prove(f'{a} of the run, and only that, is set to the run of the {a}',
                              z3.And(gd[x] == (x == r), gm[r] == RUN_OF(t)))
                    ctx.prove(f'the {a} is visited, nothing else is', vis[x] == (x == t))
            elif cls is ProcessSpec and (c, a) == (IngredientRun, 'process'):
                ctx.cover('linked')
                i, q = ctx.fresh(I, 'i'), z3.Const('q!ing', I)
                ctx.assume(z3.Implies(n > 0, z3.And(0 <= i, i < n)))
                ctx.touch(arr[i])
                interp.instantiate_lemmas(arr, i)
                y = RUN_OF(arr[i])
                ctx.prove('the run of each ingredient has the run as its process',
                          z3.Implies(n > 0, z3.And(gd[y], gm[y] == r)))
                ctx.prove('only runs of its ingredients do', z3.Implies(gd[x], z3.Exists(
                    [q], z3.And(0 <= q, q < n, x == RUN_OF(arr[q]), gm[x] == r))))
                ctx.prove('each ingredient is visited', z3.Implies(n > 0, vis[arr[i]]))
                ctx.prove('only its ingredients are', z3.Implies(vis[x], z3.Exists(
                    [q], z3.And(0 <= q, q < n, x == arr[q]))))
            else:
                ctx.prove(f'{c.__name__}.{a} is set nowhere', z3.Not(gd[x]))
        if cls is MeasurementSpec:
            ctx.cover('leaf')
            ctx.prove('nothing is visited', z3.Not(vis[x]))
        if cls is not IngredientSpec:
            ctx.prove('the run has the name of its specification', interp.decide(
                interp.is_(interp.getattr(run, 'name'), interp.getattr(spec, 'name'))))


for _c in RUN:
    step_unit(_c)


@unit('C19', 'a specification already instantiated gives the same run, and nothing happens',
      covers=[c.__name__ for c in RUN])
def u_known(ctx, interp):
    ctx.func_contracts.update(eq_contract())
    cls = list(RUN)[ctx.choose(len(RUN))]
    spec = ctx.obj(cls, 'spec')
    st, kind, run = run_step(ctx, interp, spec, True)
    ctx.cover(cls.__name__)
    x = ctx.fresh(Val, 'x')
    ctx.prove('the recorded run is returned',
              z3.And(kind == 'ret', ctx.lift(run) == st.map0[st.me]) if kind == 'ret' else False)
    d, m = ctx.map_terms(interp.map_content(st.seen))
    ctx.prove('the record is unchanged', z3.And(d[x] == st.dom0[x], m[x] == st.map0[x]))
    for g in [st.visited, *st.set_.values()]:
        ctx.prove('nothing is visited or set', z3.Not(st.entries(g)[0][x]))


OTHER = [c for c in GEMD if c not in RUN] + [list, dict, tuple, str, int, float, type(None)]


@unit('C19', 'anything that is not a specification is rejected', covers=[c.__name__ for c in OTHER])
def u_other(ctx, interp):
    cls = OTHER[ctx.choose(len(OTHER))]
    x = ctx.any_value('x', [cls]) if cls in (list, dict, tuple, str, int, float, type(None)) \
        else ctx.obj(cls, 'x')
    kind, e = outcome(lambda: interp.call(make_instance, [x]))
    ctx.cover(cls.__name__)
    ctx.prove('it is refused with a TypeError', kind == 'raise' and issubclass(e.cls, TypeError))


@unit('C19', 'the proved step implies one run for each reachable specification and no other',
      covers=['first', 'next', 'last', 'whole'], shapes=False)
def u_closure(ctx, interp):
    """A lemma with no code in it.  A call on s with record S gives a record S' such that S' contains
    S and s, whatever is new in S' has all it refers to in S', and is reachable from s.  By the step
    contract a call records s and then visits what s refers to, one after another."""
    X = z3.DeclareSort('Spec')
    child, reach = z3.Function('refers', X, X, B), z3.Function('reach', X, X, B)
    x, y, w = (z3.Const(n, X) for n in 'xyw')
    s = z3.Const('s', X)
    ctx.assume(z3.ForAll([x], reach(x, x), patterns=[reach(x, x)]))
    ctx.assume(z3.ForAll([x, y, w], z3.Implies(z3.And(child(x, y), reach(y, w)), reach(x, w)),
                         patterns=[z3.MultiPattern(child(x, y), reach(y, w))]))

    def inside(P, Q):
        return z3.ForAll([x], z3.Implies(P(x), Q(x)), patterns=[P(x)])

    def post(P, Q, t):
        return [('the record grows', inside(P, Q)), ('the specification is recorded', Q(t)),
                ('what is new has all it refers to recorded', z3.ForAll([x, y], z3.Implies(
                    z3.And(Q(x), z3.Not(P(x)), child(x, y)), Q(y)))),
                ('what is new is reachable', z3.ForAll([x], z3.Implies(
                    z3.And(Q(x), z3.Not(P(x))), reach(t, x))))]

    def during(P, Q, done):
        """After some of the visits."""
        return [('the record grows', inside(P, Q)), ('the specification is recorded', Q(s)),
                ('what was visited is recorded', inside(done, Q)),
                ('what else is new has all it refers to recorded', z3.ForAll([x, y], z3.Implies(
                    z3.And(Q(x), z3.Not(P(x)), x != s, child(x, y)), Q(y)))),
                ('what is new is reachable', z3.ForAll([x], z3.Implies(
                    z3.And(Q(x), z3.Not(P(x))), reach(s, x))))]
    S, Q, R, done = (z3.Function(n, X, B) for n in ('S', 'Q', 'R', 'done'))
    way = ctx.choose(4)
    if way == 3:
        ctx.cover('whole')
        ctx.assume(R(s))
        ctx.assume(z3.ForAll([x, y], z3.Implies(z3.And(R(x), child(x, y)), R(y)),
                             patterns=[z3.MultiPattern(R(x), child(x, y))]))
        ctx.assume(z3.ForAll([x], z3.Implies(R(x), reach(s, x)), patterns=[R(x)]))
        # reach is least: a closed set that contains s contains all that s reaches
        ctx.assume(z3.Implies(z3.And(R(s), z3.ForAll([x, y], z3.Implies(
            z3.And(R(x), child(x, y)), R(y)))), z3.ForAll([x], z3.Implies(reach(s, x), R(x)),
                                                          patterns=[reach(s, x)])))
        ctx.prove('exactly what is reachable is recorded', z3.ForAll([x], R(x) == reach(s, x)))
        return
    ctx.assume(z3.Not(S(s)))
    if way == 0:
        ctx.cover('first')
        ctx.assume(z3.ForAll([x], Q(x) == z3.Or(S(x), x == s), patterns=[Q(x)]))
        ctx.assume(z3.ForAll([x], z3.Not(done(x)), patterns=[done(x)]))
        ctx.assume(z3.ForAll([x], z3.Implies(S(x), Q(x)), patterns=[S(x)]))
        for label, f in during(S, Q, done):
            ctx.prove(f'before the visits: {label}', f)
        return
    for _, f in during(S, Q, done):
        ctx.assume(f)
    if way == 1:
        ctx.cover('next')
        c = z3.Const('c', X)
        ctx.assume(child(s, c))
        for _, f in post(Q, R, c):
            ctx.assume(f)
        done2 = z3.Function('done2', X, B)
        ctx.assume(z3.ForAll([x], done2(x) == z3.Or(done(x), x == c), patterns=[done2(x)]))
        for label, f in during(S, R, done2):
            ctx.prove(f'after another visit: {label}', f)
        return
    ctx.cover('last')
    ctx.assume(z3.ForAll([x], z3.Implies(child(s, x), done(x)), patterns=[child(s, x)]))
    for label, f in post(S, Q, s):
        ctx.prove(f'after the visits: {label}', f)

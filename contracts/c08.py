"""C08: union and update give the smallest enclosing bounds, and touch nothing else."""
import z3

from gemd.entity.bounds import (CategoricalBounds, CompositionBounds, IntegerBounds,
                                MolecularStructureBounds, RealBounds)
from gemd.entity.value import (DiscreteCategorical, EmpiricalFormula, NominalCategorical,
                               NominalComposition, NominalInteger, NominalReal, NormalReal)

from pyvc.interp import StarArgs
from pyvc.unit import unit, outcome
from pyvc.values import *  # noqa: F401,F403
from pyvc.values import B, DDOM, I, R, Str, UNIVERSE, Val

from . import regions as rg
from . import unitmodel as um
from .shapes import BOUNDS, ListOf, NONENTITIES


class Scene:
    def __init__(self, ctx, interp, cls, foreign=False):
        rg.install(ctx)
        rg.install_to_bounds(ctx)
        self.ctx, self.interp, self.cls = ctx, interp, cls
        same = [cls] + list(rg.KINDS[cls])
        self.a = ctx.obj(cls, 'a')
        self.ra = rg.region(interp, self.a)
        self.others = ctx.obj(list, 'others')
        ctx.list_shapes[self.others.t.get_id()] = ListOf(
            'others', *(list(NONENTITIES) + [str, int, dict] if foreign else same))
        self.n, self.arr = ctx.seq_terms(interp.seq_content(self.others))
        i = self.i = z3.Int('i!op')
        self.each = rg.Terms(cls, self.arr[i])
        if not foreign:
            kinds = z3.Or(*[rg.is_(self.arr[i], c) for c in same])
            self.all(z3.And(Val.is_ref(self.arr[i]), kinds, self.each.facts(ctx)))

    def all(self, formula):
        """Assume a formula about the operand at self.i, for every operand."""
        rng = z3.And(0 <= self.i, self.i < self.n)
        self.ctx.assume(z3.ForAll([self.i], z3.Implies(rng, formula),
                                  patterns=[self.arr[self.i]]))
        self.ctx.element_lemmas.append((self.i, z3.Implies(rng, formula), None))

    def some(self, hint='op'):
        """The index of an arbitrary operand, to instantiate what the code found out at."""
        k = self.ctx.fresh(I, hint)
        self.ctx.witnesses.append((self.arr, k))
        return k

    def valid(self, k):
        return z3.And(0 <= k, k < self.n)

    def at(self, formula, k):
        return z3.substitute(formula, (self.i, k))

    def welcome(self):
        """An operand's bounds exist and are in convertible units."""
        ok = self.each.formed
        if self.cls is RealBounds:
            ok = z3.And(ok, um.KIND(self.each.unit) == um.KIND(self.ra.unit))
        return ok

    def call(self, method):
        return outcome(lambda: self.interp.call(self.interp.getattr(self.a, method),
                                                [StarArgs(self.others)]))


def smallest(sc, res, tag):
    """The region of the result is the smallest containing the receiver's and every operand's."""
    ctx, cls = sc.ctx, sc.cls
    if cls is RealBounds:
        ctx.prove(f'{tag}: in the units of the first', res.unit == sc.ra.unit)
        w = sc.some()
        lo, hi = (um.UNBASE(res.unit, um.BASE(sc.each.unit, x))
                  for x in (sc.each.lo, sc.each.hi))
        num = R
    elif cls is IntegerBounds:
        w = sc.some()
        lo, hi, num = sc.each.lo, sc.each.hi, I
    elif cls is MolecularStructureBounds:
        ctx.prove(f'{tag}: a molecular structure bounds', True)
        return
    else:
        k = ctx.fresh(Val, 'point')
        w = sc.some()
        ctx.prove(f'{tag}: contains the receiver', z3.Implies(sc.ra.dom[k], res.dom[k]))
        ctx.prove(f'{tag}: contains every operand',
                  z3.Implies(z3.And(sc.valid(w), sc.at(sc.each.has(k), w)), res.dom[k]))
        snap = ctx.snapshot()
        ctx.assume(z3.Not(sc.ra.dom[k]))
        sc.all(z3.Not(sc.each.has(k)))
        ctx.prove(f'{tag}: contains nothing else', z3.Not(res.dom[k]))
        ctx.restore(snap)
        return
    ctx.prove(f'{tag}: contains the receiver', z3.And(res.lo <= sc.ra.lo, sc.ra.hi <= res.hi))
    ctx.prove(f'{tag}: contains every operand', z3.Implies(sc.valid(w), z3.And(
        res.lo <= sc.at(lo, w), sc.at(hi, w) <= res.hi)))
    low, high = ctx.fresh(num, 'low'), ctx.fresh(num, 'high')
    ctx.assume(z3.And(low <= sc.ra.lo, sc.ra.hi <= high))
    sc.all(z3.And(low <= lo, hi <= high))
    ctx.prove(f'{tag}: no larger than any range that contains them all',
              z3.And(low <= res.lo, res.hi <= high))


def union_unit(cls):
    @unit('C08', f'{cls.__name__}.union: any number of operands', covers=['union'], budget=300)
    def u(ctx, interp):
        sc = Scene(ctx, interp, cls)
        sc.all(sc.welcome())
        mark = rg.mark(ctx)
        kind, r = sc.call('union')
        ctx.prove('union: nothing existing is changed', not rg.changes(ctx, mark))
        ctx.prove('operands of the kind, in convertible units, have a union', kind == 'ret')
        if kind != 'ret':
            return
        ctx.cover('union')
        ctx.prove('the union is of the kind', interp.decide(interp.isinstance_(r, cls)))
        fresh(ctx, interp, sc, r, mark, 'union')
        smallest(sc, rg.region(interp, r), 'union')


def refused_units(cls, method):
    ways = ['another kind'] + (['no bounds'] if cls not in (IntegerBounds, MolecularStructureBounds)
                               else []) + (['units'] if cls is RealBounds else [])

    for way in ways:
        refused_unit(cls, method, way)


def refused_unit(cls, method, way):
    @unit('C08', f'{cls.__name__}.{method}: an unwelcome operand ({way})', covers=[way], budget=300)
    def u(ctx, interp):
        sc = Scene(ctx, interp, cls, foreign=way == 'another kind')
        w = sc.some('unwelcome')
        ctx.assume(sc.valid(w))
        e = sc.arr[w]
        interp.getitem(sc.others, SV(Val.int(w)))
        if way == 'another kind':
            ctx.assume(z3.Not(z3.Or(*[rg.is_(e, c) for c in [cls] + list(rg.KINDS[cls])])))
        elif way == 'no bounds':
            ctx.assume(z3.Not(sc.at(sc.each.formed, w)))
        else:
            ctx.assume(um.KIND(sc.at(sc.each.unit, w)) != um.KIND(sc.ra.unit))
        ctx.cover(way)
        mark = rg.mark(ctx)
        kind, r = sc.call(method)
        ctx.prove(f'{method}: an operand that has no place in the union is an error',
                  kind == 'raise')
        ctx.prove(f'{method}: refused, everything stays as it was', not rg.changes(ctx, mark))


def update_unit(cls):
    @unit('C08', f'{cls.__name__}.update: any number of operands', covers=['update'] + (
        [] if cls in (IntegerBounds, MolecularStructureBounds) else ['refused']),
          budget=300)
    def u(ctx, interp):
        sc = Scene(ctx, interp, cls)
        if ctx.choose(2):
            sc.all(sc.welcome())
            ok = True
        else:
            ok = False
        mark = rg.mark(ctx)
        kind, r = sc.call('update')
        if kind == 'raise':
            ctx.cover('refused')
            ctx.prove('operands of the kind, in convertible units, can be joined', not ok)
            ctx.prove('update: refused, everything stays as it was', not rg.changes(ctx, mark))
            return
        for a, f in rg.changes(ctx, mark):
            ctx.prove('update: only the receiver is changed',
                      f is not None and ctx.same_addr(a, ctx.addr(sc.a)) is True)
        if ok:
            ctx.cover('update')
            res = rg.region(interp, sc.a)
            smallest(sc, res, 'update')
            f = {CategoricalBounds: '_categories', CompositionBounds: '_components'}.get(cls)
            if f:
                a = ctx.addr(interp.getattr(sc.a, f))
                ctx.prove('update: its set is its own', isinstance(a, int) and a <= mark[2])


def fresh(ctx, interp, sc, r, mark, tag):
    """The result and its set are new objects."""
    a = ctx.addr(r)
    ctx.prove(f'{tag}: the result is a new object', isinstance(a, int) and a <= mark[2])
    f = {CategoricalBounds: '_categories', CompositionBounds: '_components'}.get(sc.cls)
    if f:
        a = ctx.addr(interp.getattr(r, f))
        ctx.prove(f'{tag}: its set is its own', isinstance(a, int) and a <= mark[2])


for _c in BOUNDS:
    union_unit(_c)
    update_unit(_c)
    for _m in ('union', 'update'):
        refused_units(_c, _m)

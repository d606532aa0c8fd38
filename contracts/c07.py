"""C07: bounds containment is exactly set inclusion."""
import z3

from gemd.entity.bounds import (CategoricalBounds, CompositionBounds, IntegerBounds,
                                MolecularStructureBounds, RealBounds)
from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.object import MaterialRun
from gemd.entity.template import PropertyTemplate

from pyvc.models import KPOS
from pyvc.unit import unit, outcome
from pyvc.values import *  # noqa: F401,F403
from pyvc.values import B, DomArr, I, R, Str, Val

from . import regions as rg
from . import unitmodel as um
from .shapes import BOUNDS

OTHERS = [int, float, bool, str, list, dict, LinkByUID, MaterialRun, PropertyTemplate]


def witness(ctx, interp, *regions):
    """An arbitrary point of the set kinds, known to the enumerations of the sets."""
    k = ctx.fresh(Val, 'point')
    for r in regions:
        if r and hasattr(r, 'dom'):
            n, arr = interp.dom_order(r.dom)
            ctx.inst_map(r.dom, k)
            ctx.witnesses.append((arr, z3.simplify(KPOS(r.dom, k))))
    return k


def same_kind(cls):
    same = [cls] + list(rg.KINDS[cls])
    always = cls is MolecularStructureBounds

    @unit('C07', f'{cls.__name__}.contains: the same kind',
          covers=['inside'] + ([] if always else ['outside']), budget=300)
    def u_same(ctx, interp):
        rg.install(ctx)
        a = ctx.obj(cls, 'a')
        b = ctx.obj(tuple(same), 'b')
        ra, rb = rg.region(interp, a), rg.region(interp, b)
        k = witness(ctx, interp, ra, rb)
        mark = rg.mark(ctx)
        kind, r = outcome(lambda: interp.call(interp.getattr(a, 'contains'), [b]))
        rg.pure(ctx, mark, 'contains')
        if rb is None:
            ctx.prove('a value that cannot form bounds is an error', kind == 'raise')
            return
        ctx.prove('bounds and values of the kind are compared', kind == 'ret')
        if kind != 'ret':
            return
        if interp.truth_decide(r):
            ctx.cover('inside')
            ctx.prove('every point of the contained is a point of the container',
                      rg.subset(ra, rb, k))
        else:
            ctx.cover('outside')
            if hasattr(ra, 'dom'):
                # refused: some point of b is not a point of a, so inclusion cannot hold
                q = z3.Const('q!pt', Val)
                incl = z3.ForAll([q], z3.Implies(rb.dom[q], ra.dom[q]), patterns=[rb.dom[q]])
                ctx.prove('refused only if some point is outside', z3.Not(incl))
            else:
                ctx.prove('refused only if some point is outside',
                          z3.Not(rg.subset(ra, rb, k)))


def other_kind(cls, kind_):
    foreign = [kind_] + list(rg.KINDS[kind_])

    @unit('C07', f'{cls.__name__}.contains({kind_.__name__} or a value of its kind)',
          covers=['foreign'])
    def u_other(ctx, interp):
        rg.install(ctx)
        a = ctx.obj(cls, 'a')
        b = ctx.obj(tuple(foreign), 'b')
        rb = rg.region(interp, b)
        mark = rg.mark(ctx)
        kind, r = outcome(lambda: interp.call(interp.getattr(a, 'contains'), [b]))
        rg.pure(ctx, mark, 'contains')
        ctx.prove('an error only where a value cannot form bounds',
                  (kind == 'raise') == (rb is None))
        if kind == 'ret':
            ctx.cover('foreign')
            ctx.prove('another kind is not contained', not interp.truth_decide(r))


def no_bounds(cls):
    @unit('C07', f'{cls.__name__}.contains(anything else)', covers=['none', 'error'])
    def u_error(ctx, interp):
        rg.install(ctx)
        a = ctx.obj(cls, 'a')
        b = ctx.any_value('b', [type(None)] + OTHERS)
        none = interp.decide(interp.is_(b, None))
        mark = rg.mark(ctx)
        kind, r = outcome(lambda: interp.call(interp.getattr(a, 'contains'), [b]))
        rg.pure(ctx, mark, 'contains')
        if none:
            ctx.cover('none')
            ctx.prove('nothing is not contained', kind == 'ret' and not interp.truth_decide(r))
        else:
            ctx.cover('error')
            ctx.prove('what has no bounds is an error', kind == 'raise')


for _c in BOUNDS:
    same_kind(_c)
    no_bounds(_c)
    for _k in BOUNDS:
        if _k is not _c:
            other_kind(_c, _k)


def arbitrary(ctx, cls, tag):
    """Any region of a kind."""
    if cls is RealBounds:
        u = ctx.fresh(Str, f'unit {tag}')
        ctx.assume(um.PARSES(u))
        r = rg.Region(cls, unit=u, lo=ctx.fresh(R, f'lo {tag}'), hi=ctx.fresh(R, f'hi {tag}'))
        ctx.assume(r.lo <= r.hi)
    elif cls is IntegerBounds:
        r = rg.Region(cls, lo=ctx.fresh(I, f'lo {tag}'), hi=ctx.fresh(I, f'hi {tag}'))
        ctx.assume(r.lo <= r.hi)
    elif cls is MolecularStructureBounds:
        r = rg.Region(cls)
    else:
        r = rg.Region(cls, dom=ctx.fresh(DomArr, f'set {tag}'))
    return r


@unit('C07', 'inclusion is reflexive, transitive and independent of the units used')
def u_lemma(ctx, interp):
    """Lemmas over the contract above."""
    for x in um.axioms():
        ctx.assume(x)
    cls = (RealBounds, IntegerBounds, CategoricalBounds, CompositionBounds,
           MolecularStructureBounds)[ctx.choose(5)]
    a, b, c = (arbitrary(ctx, cls, t) for t in 'abc')
    k = ctx.fresh(Val, 'point')
    ctx.prove('reflexive', rg.subset(a, a, k))
    ctx.prove('transitive', z3.Implies(z3.And(rg.subset(a, b, k), rg.subset(b, c, k)),
                                       rg.subset(a, c, k)))
    if cls is RealBounds:
        # the same range written in another convertible unit
        u = ctx.fresh(Str, 'other unit')
        ctx.assume(z3.And(um.PARSES(u), um.KIND(u) == um.KIND(a.unit)))
        al, ah = a.base()
        a2 = rg.Region(cls, unit=u, lo=um.UNBASE(u, al), hi=um.UNBASE(u, ah))
        ctx.prove('the container may be written in other units',
                  rg.subset(a, b, k) == rg.subset(a2, b, k))
        ctx.prove('the contained may be written in other units',
                  rg.subset(c, a, k) == rg.subset(c, a2, k))
        # and it is inclusion of the points between the ends, in the common scale
        x = ctx.fresh(R, 'x')
        (al, ah), (bl, bh) = a.base(), b.base()
        ctx.prove('inclusion of the ends is inclusion of the points', z3.Implies(
            rg.subset(a, b, k), z3.Implies(z3.And(bl <= x, x <= bh), z3.And(al <= x, x <= ah))))
        ctx.prove('... and conversely', z3.Implies(z3.And(
            um.KIND(a.unit) == um.KIND(b.unit),
            z3.And(al <= bl, bl <= ah), z3.And(al <= bh, bh <= ah)), rg.subset(a, b, k)))

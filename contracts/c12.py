"""C12: ingredient quantities are checked against their physical limits."""
import z3

from gemd.entity.bounds_validation import WarningLevel
from gemd.entity.object import IngredientRun, IngredientSpec
from gemd.entity.value.continuous_value import ContinuousValue

from pyvc.unit import unit, outcome
from pyvc.values import *  # noqa: F401,F403

from . import unitmodel as um
from .common import instance, logs, set_level

FIELDS = ('mass_fraction', 'volume_fraction', 'number_fraction', 'absolute_quantity')


def fine(ctx, interp, field, v):
    """Whether the quantity respects its limits (None: its numbers form no quantity)."""
    s, lo, hi = um.real_interval(ctx, interp, v)
    if lo is None:
        return None
    one = ctx.strlit('dimensionless')
    if field == 'absolute_quantity':
        return z3.And(um.KIND(s) != um.KIND(one), lo >= 0)
    return z3.And(um.KIND(s) == um.KIND(one), um.BASE(s, lo) >= um.BASE(one, z3.RealVal(0)),
                  um.BASE(s, hi) <= um.BASE(one, z3.RealVal(1)))


def zero_is_zero(ctx, interp):
    """Dimensionless units have a common zero, and no number exceeds the largest float."""
    import sys
    u = z3.Const('u!zero', Str)
    one = ctx.strlit('dimensionless')
    ctx.assume(z3.ForAll([u], z3.Implies(
        um.KIND(u) == um.KIND(one), um.BASE(u, z3.RealVal(0)) == um.BASE(one, z3.RealVal(0))),
        patterns=[um.KIND(u)]))


def body_for(cls, field, construct):
    def body(ctx, interp):
        import sys
        um.install(ctx)
        zero_is_zero(ctx, interp)
        level = set_level(ctx, interp)
        v = ctx.any_value('quantity')
        o = None
        if not construct:
            o = ctx.obj(cls, 'ingredient')
            before = {f: interp.getattr(o, f) for f in FIELDS}
        quantity = instance(interp, v, ContinuousValue)
        none = v is None or interp.decide(interp.is_(v, None))
        ok = True
        if quantity:
            f = fine(ctx, interp, field, v)
            if f is not None:
                # no number beyond the largest float, in any unit
                s, lo, hi = um.real_interval(ctx, interp, v)
                big = z3.RealVal(int(sys.float_info.max))
                ctx.assume(hi <= big)
                one = ctx.strlit('dimensionless')
                ctx.assume(z3.Implies(um.KIND(s) == um.KIND(one),
                                      um.BASE(s, hi) <= um.BASE(one, big)))
            ok = None if f is None else ctx.branch(f)
        start = len(ctx.events)
        if construct:
            args = ['name'] if cls is IngredientSpec else []
            kind, r = outcome(lambda: interp.call(cls, args, {field: v}))
            if kind == 'ret':
                o = r
        else:
            kind, r = outcome(lambda: interp.setattr(o, field, v))
        n = logs(ctx, start)
        if not construct:
            for g in FIELDS:
                if g != field:
                    ctx.prove('other quantities stay', ctx.lift(interp.getattr(o, g))
                              == ctx.lift(before[g]))
        if kind == 'ret':
            ctx.prove('the quantity is stored', ctx.lift(interp.getattr(o, field)) == ctx.lift(v))
        elif not construct:
            ctx.prove('rejected: the previous quantity stays',
                      ctx.lift(interp.getattr(o, field)) == ctx.lift(before[field]))
        if none:
            ctx.cover('none')
            ctx.prove('no quantity is accepted silently', kind == 'ret' and n == 0)
        elif not quantity:
            ctx.cover('wrong type')
            ctx.prove('anything but a real-valued quantity is rejected', kind == 'raise')
        elif ok is None:
            ctx.cover('ill-formed')
            ctx.prove('numbers that form no quantity are never accepted at the strictest level',
                      kind == 'raise' or level is not WarningLevel.FATAL)
        elif ok:
            ctx.cover('within limits')
            ctx.prove('a quantity within its limits is accepted without complaint',
                      kind == 'ret' and n == 0)
        elif level is WarningLevel.FATAL:
            ctx.cover('fatal')
            ctx.prove('a quantity outside its limits raises at the strictest level',
                      kind == 'raise')
        elif level is WarningLevel.WARNING:
            ctx.cover('warning')
            ctx.prove('a quantity outside its limits is stored and logged at the warning level',
                      kind == 'ret' and bool(n))
        else:
            ctx.cover('ignore')
            ctx.prove('a quantity outside its limits is stored silently at the ignore level',
                      kind == 'ret' and n == 0)
    return body


for _c in (IngredientRun, IngredientSpec):
    for _f in FIELDS:
        for _k in (False, True):
            unit('C12', f'{_c.__name__}({_f}=...)' if _k else f'{_c.__name__}.{_f} = ...',
                 covers=['none', 'wrong type', 'within limits', 'fatal', 'warning', 'ignore'])(
                body_for(_c, _f, _k))

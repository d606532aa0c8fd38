"""Contracts shared by several properties."""
import z3

from gemd.entity.base_entity import BaseEntity
from gemd.entity.dict_serializable import DictSerializable
from gemd.entity.link_by_uid import LinkByUID

from pyvc.values import *  # noqa: F401,F403
from pyvc.values import Val, B

EQ = z3.Function('ENTITY_EQ', Val, Val, B)


def eq_opaque(interp, args, kwargs):
    """Equality of objects: some boolean, reflexive; nothing else is assumed."""
    ctx = interp.ctx
    a, b = args
    ta, tb = ctx.lift(a), ctx.lift(b)
    ctx.assume(z3.Implies(ta == tb, EQ(ta, tb)))
    return SV(Val.bool(EQ(ta, tb)))


def eq_contract():
    out = {}
    for cls in (DictSerializable, BaseEntity, LinkByUID):
        f = cls.__dict__.get('__eq__')
        if f is not None:
            out[f] = eq_opaque
    return out


def set_level(ctx, interp):
    """Bring the module state to an arbitrary validation level; returns it."""
    import gemd.entity.bounds_validation as bv
    levels = list(bv.WarningLevel)
    lvl = levels[ctx.choose(len(levels))]
    interp.call(bv.set_validation_level, [lvl])
    return lvl


def logs(ctx, since):
    """How many log calls happened (None: unknown number)."""
    evs = [e for e in ctx.events[since:] if e[0] in ('log', 'log-maybe')]
    if any(e[0] == 'log-maybe' for e in evs):
        return None
    return len(evs)


def instance(interp, v, cls):
    return v is not None and interp.decide(interp.isinstance_(v, cls))

"""The contract of the unit library, as every other contract sees it.

Trusted (assumed of pint, sampled by C15): the strings it can parse have a canonical form that parses
to itself; convertible units form classes (KIND); within a class, conversion goes through a common
scale (BASE) that is strictly increasing in the number and invertible.  Numbers are mathematical reals
(no rounding, no overflow).
"""
import z3

import gemd.units as gu
from gemd.units import impl as units_impl

from pyvc.ctx import Unsupported
from pyvc.values import *  # noqa: F401,F403
from pyvc.values import B, I, R, Str, Val

KIND = z3.Function('UNIT_KIND', Str, I)
BASE = z3.Function('UNIT_BASE', Str, R, R)
UNBASE = z3.Function('UNIT_UNBASE', Str, R, R)
CANON = z3.Function('UNIT_CANON', Str, Str)
PARSES = z3.Function('UNIT_PARSES', Str, B)
TRUST = "pint: canonical forms, conversion classes, increasing and invertible conversion"


def axioms():
    u, x, y = z3.Const('u!unit', Str), z3.Real('x!unit'), z3.Real('y!unit')
    return [
        z3.ForAll([u, x], UNBASE(u, BASE(u, x)) == x, patterns=[BASE(u, x)]),
        z3.ForAll([u, y], BASE(u, UNBASE(u, y)) == y, patterns=[UNBASE(u, y)]),
        z3.ForAll([u, x, y], (x <= y) == (BASE(u, x) <= BASE(u, y)),
                  patterns=[z3.MultiPattern(BASE(u, x), BASE(u, y))]),
        z3.ForAll([u], z3.Implies(PARSES(u), z3.And(
            PARSES(CANON(u)), CANON(CANON(u)) == CANON(u), KIND(CANON(u)) == KIND(u))),
            patterns=[CANON(u)]),
        z3.ForAll([u, x], z3.Implies(PARSES(u), BASE(CANON(u), x) == BASE(u, x)),
                  patterns=[BASE(CANON(u), x)]),
    ]


def parse(interp, args, kwargs):
    ctx = interp.ctx
    u = args[0]
    if kwargs.get('return_unit', False) is not False:
        raise Unsupported("parse_units(return_unit=True) outside C15")
    if u is None:
        return None
    if isinstance(u, SV) and ctx.ctor(u.t) is None:
        if interp.decide(interp.is_(u, None)):
            return None
    if not interp.decide(interp.isinstance_(u, str)):
        if isinstance(u, SV) and ctx.choose(2):
            interp.raise_(TypeError)  # unhashable argument of the cached function
        interp.raise_(gu.UndefinedUnitError)
    s = Val.s(ctx.lift(u))
    if isinstance(u, str):
        r = gu.parse_units(u)
        ctx.assume(z3.And(PARSES(s), CANON(s) == ctx.strlit(r)))
        return r
    if not ctx.branch(PARSES(s)):
        interp.raise_(gu.UndefinedUnitError)
    return SV(Val.str(CANON(s)))


def convert(interp, args, kwargs):
    ctx = interp.ctx
    v, a, b = args
    for x in (a, b):
        if not interp.decide(interp.isinstance_(x, str)):
            raise Unsupported("convert_units of something that is not a string")
    sa, sb = Val.s(ctx.lift(a)), Val.s(ctx.lift(b))
    t = ctx.lift(v)
    if ctx.ctor(t) == 'flt' and ctx.ground_entails(z3.And(PARSES(sa), PARSES(sb))):
        # equal units are of one kind, and give the number itself, as converting back does
        if not ctx.branch(KIND(sa) == KIND(sb)):
            interp.raise_(gu.IncompatibleUnitsError)
        return SV(Val.flt(UNBASE(sb, BASE(sa, Val.r(t)))))
    if interp.decide(interp.eq(a, b)):
        return v
    if not ctx.branch(z3.And(PARSES(sa), PARSES(sb))):
        interp.raise_(gu.UndefinedUnitError)
    if not ctx.branch(KIND(sa) == KIND(sb)):
        interp.raise_(gu.IncompatibleUnitsError)
    k, t = interp.numeric_term(v)
    if k not in ('int', 'flt'):
        raise Unsupported("conversion of a number that is not finite")
    return SV(Val.flt(UNBASE(sb, BASE(sa, interp._real(k, t)))))


def install(ctx):
    for a in axioms():
        ctx.assume(a)
    ctx.func_contracts[units_impl.parse_units] = parse
    ctx.func_contracts[units_impl.convert_units] = convert
    ctx.stats['assumed'].add(TRUST)


def stored(ctx, interp, obj, attr):
    """The unit string of an existing object: canonical, because a setter stored it."""
    u = interp.getattr(obj, attr)
    s = Val.s(ctx.lift(u))
    ctx.assume(z3.And(PARSES(s), CANON(s) == s))
    return s


def real_interval(ctx, interp, v):
    """(unit, lower, upper) of a real value or bounds, or None where its numbers form no interval."""
    from gemd.entity.bounds import RealBounds
    from gemd.entity.value import NominalReal, NormalReal
    if interp.decide(interp.isinstance_(v, RealBounds)):
        s = stored(ctx, interp, v, 'default_units')
        f = ('lower_bound', 'upper_bound')
    else:
        s = stored(ctx, interp, v, 'units')
        if interp.decide(interp.isinstance_(v, NominalReal)):
            f = ('nominal', 'nominal')
        elif interp.decide(interp.isinstance_(v, NormalReal)):
            f = ('mean', 'mean')
        else:
            f = ('lower_bound', 'upper_bound')
    ends = []
    for name in f:
        k, t = interp.numeric_term(interp.getattr(v, name))
        if k not in ('int', 'flt'):
            if interp.decide(interp.isinstance_(v, RealBounds)):
                ctx.assume(z3.BoolVal(False))  # kept by the setters (C09)
            return s, None, None
        ends.append(interp._real(k, t))
    if f[0] == 'lower_bound' and interp.decide(interp.isinstance_(v, RealBounds)):
        ctx.assume(ends[0] <= ends[1])     # kept by the setters (C09)
    elif ctx.branch(ends[0] > ends[1]):
        return s, None, None
    return s, ends[0], ends[1]

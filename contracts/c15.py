"""C15: units.

The unit library is replaced by its assumed contract (a registry, below); the functions of
gemd.units run as they are.  What they memoise is covered by ghost state: every memo table whose
function can see the current definitions has to be emptied by a change of the definitions.
"""
import functools
import os
import pathlib
import types

import z3

import gemd
import gemd.units.impl as impl
from gemd.units import IncompatibleUnitsError, UndefinedUnitError
from pint import UnitRegistry

from pyvc.ctx import Unsupported
from pyvc.unit import unit, outcome
from pyvc.values import *  # noqa: F401,F403
from pyvc.values import UNIVERSE, Val, I, B, R, Str

from . import unitmodel as um

NAME = 'gemd.units.impl'
FMT = z3.Function('UNIT_FORMAT', Str, Str)       # the text of the unit that a text denotes
UNM = z3.Function('UNMANGLED', Str, Str)
ROOT = z3.Function('UNIT_ROOT', Str, Str)        # the root units of the unit that a text denotes
DIM = z3.Function('UNIT_DIMENSION', Str, Str)
RATIO = z3.Function('UNIT_RATIO', Str, R)
TRUST = "pint: parse, format, root units and affine conversion of units"


def text(ctx, t):
    return SV(Val.str(t))


def s_of(ctx, interp, v):
    if isinstance(v, str):
        return ctx.strlit(v)
    if not interp.decide(interp.isinstance_(v, str)):
        raise Unsupported("what is given to the unit library is not a text")
    return Val.s(ctx.lift(v))


class Registry:
    """The contract of a pint registry, for one set of definitions (`tag`)."""

    def __init__(self, ctx, interp, tag=''):
        self.ctx, self.interp, self.used = ctx, interp, 0
        self.parses, self.fmt, self.root, self.base, self.unbase, self.ratio = (
            um.PARSES, FMT, ROOT, um.BASE, um.UNBASE, RATIO)
        self.mock = SMock('registry' + tag, dict(
            parse_units=self.parse, Quantity=self.quantity, get_root_units=self.roots,
            get_dimensionality=self.dim, get_base_units=self.base_units,
            parse_expression=self.no, Unit=self.parse))
        self.units = []
        ctx.stats['assumed'].add(TRUST)

    def no(self, interp, *a, **k):
        raise Unsupported("this part of the unit library has no contract")

    def as_unit(self, s):
        ctx = self.ctx
        for t, m in self.units:
            if t.eq(s):
                return m
        m = SMock('unit', {
            '__str__': lambda interp: text(ctx, self.fmt(s)),
            '__isinstance__': lambda interp, c: c in (UnitRegistry.Unit, object) or (
                isinstance(c, tuple) and any(x in (UnitRegistry.Unit, object) for x in c))})
        m.s = s
        self.units.append((s, m))
        return m

    def parse(self, interp, s, *rest, **kw):
        self.used += 1
        if isinstance(s, SMock) and hasattr(s, 's'):
            return s
        t = s_of(self.ctx, interp, s)
        if not self.ctx.branch(self.parses(t)):
            interp.raise_(UndefinedUnitError, 'unit')
        return self.as_unit(t)

    def quantity(self, interp, value, units=None, *rest, **kw):
        u = self.parse(interp, units)
        return self.as_quantity(value, u)

    def as_quantity(self, value, u):
        def to(interp, v):
            self.used += 1
            v = v.unit if hasattr(v, 'unit') else self.parse(interp, v)
            if not self.ctx.branch(self.root(u.s) == self.root(v.s)):
                # as the library does: only dimensions count (radian, count and 1 have none)
                if not self.ctx.branch(DIM(self.root(u.s)) == DIM(self.root(v.s))):
                    interp.raise_(IncompatibleUnitsError, 'units')
                return self.as_quantity(SV(Val.flt(self.ctx.fresh(R, 'number'))), v)
            k, t = interp.numeric_term(value)
            if k not in ('int', 'flt'):
                raise Unsupported("conversion of a number that is not finite")
            x = interp._real(k, t)
            return self.as_quantity(SV(Val.flt(self.unbase(v.s, self.base(u.s, x)))), v)
        m = SMock('quantity', dict(magnitude=value, m=value, units=u, u=u, to=to))
        m.unit = u
        return m

    def unit_of(self, interp, x):
        return x.unit if hasattr(x, 'unit') else self.parse(interp, x)

    def roots(self, interp, x, *rest, **kw):
        self.used += 1
        u = self.unit_of(interp, x)
        return STuple((SV(Val.flt(self.ctx.fresh(R, 'factor'))), text(self.ctx, self.root(u.s))))

    def dim(self, interp, x):
        return SMock('dimension', {})

    def base_units(self, interp, x, *rest, **kw):
        u = self.unit_of(interp, x)
        t = self.root(u.s)
        # base units are units, of the same root
        self.ctx.assume(self.parses(t))
        self.ctx.assume(self.root(t) == t)
        return STuple((SV(Val.flt(self.ratio(u.s))), self.as_unit(t)))


def start(ctx, interp):
    reg = Registry(ctx, interp)
    ctx.globals_[(NAME, '_REGISTRY')] = reg.mock
    f = getattr(impl, '_unmangle_scaling', None)
    if f is not None:
        ctx.func_contracts[f] = lambda interp, a, k: text(ctx, UNM(s_of(ctx, interp, a[0])))
    return reg


def texts(ctx, hint):
    return ctx.any_value(hint, [str])


@unit('C15', 'a conversion follows the definitions, and differing kinds raise',
      covers=['same', 'converted', 'different kinds', 'unknown'])
def convert(ctx, interp):
    reg = start(ctx, interp)
    v = ctx.any_value('v', [int, float])
    a, b = texts(ctx, 'a'), texts(ctx, 'b')
    sa, sb = Val.s(a.t), Val.s(b.t)
    k, t = interp.numeric_term(v)
    if k not in ('int', 'flt'):
        return
    kind, out = outcome(lambda: interp.call(impl.convert_units, [v, a, b]))
    if ctx.branch(sa == sb):
        ctx.cover('same')
        ctx.prove('conversion to the same unit gives the very number',
                  kind == 'ret' and interp.decide(interp.is_(out, v)))
        return
    if not ctx.branch(z3.And(um.PARSES(sa), um.PARSES(sb))):
        ctx.cover('unknown')
        ctx.prove('an unknown unit raises', kind == 'raise' and out.cls is UndefinedUnitError)
        return
    if not ctx.branch(ROOT(sa) == ROOT(sb)):
        ctx.cover('different kinds')
        ctx.prove('units of different kinds raise',
                  kind == 'raise' and out.cls is IncompatibleUnitsError)
        return
    ctx.cover('converted')
    x = interp._real(k, t)
    ctx.prove('units of one kind are converted', kind == 'ret')
    ctx.prove('by the definitions', ctx.lift(out) == Val.flt(um.UNBASE(sb, um.BASE(sa, x))))


@unit('C15', 'conversion is increasing, and converting back restores the number',
      covers=['converted'])
def monotone(ctx, interp):
    start(ctx, interp)
    a, b = texts(ctx, 'a'), texts(ctx, 'b')
    x, y = ctx.fresh(R, 'x'), ctx.fresh(R, 'y')
    ctx.assume(x < y)
    f = impl.convert_units
    kx, rx = outcome(lambda: interp.call(f, [SV(Val.flt(x)), a, b]))
    ky, ry = outcome(lambda: interp.call(f, [SV(Val.flt(y)), a, b]))
    ctx.prove('whether units convert does not depend on the number', kx == ky)
    if kx != 'ret':
        return
    ctx.cover('converted')
    tx, ty = Val.r(ctx.lift(rx)), Val.r(ctx.lift(ry))
    sa, sb = Val.s(a.t), Val.s(b.t)
    # assumed of the unit library: conversion goes through a common scale, which is increasing and
    # invertible
    bx, by = um.BASE(sa, x), um.BASE(sa, y)
    cx, cy = um.UNBASE(sb, bx), um.UNBASE(sb, by)
    ctx.assume(bx < by)
    ctx.assume((cx < cy) == (um.BASE(sb, cx) < um.BASE(sb, cy)))
    for u, v in ((sa, x), (sa, y)):
        ctx.assume(um.UNBASE(u, um.BASE(u, v)) == v)
    for u, v in ((sb, bx), (sb, by)):
        ctx.assume(um.BASE(u, um.UNBASE(u, v)) == v)
    ctx.prove('order is kept', tx < ty)
    kb, back = outcome(lambda: interp.call(f, [rx, b, a]))
    ctx.prove('it converts back', kb == 'ret')
    ctx.prove('to the number', Val.r(ctx.lift(back)) == x)


@unit('C15', 'a unit text has one canonical form, which parses to itself',
      covers=['text', 'unknown', 'none', 'unit', 'other'])
def canonical(ctx, interp):
    reg = start(ctx, interp)
    which = ctx.choose(4)
    f = impl.parse_units
    as_unit = [{}, dict(return_unit=False), dict(return_unit=True)][ctx.choose(3)]
    want_unit = as_unit.get('return_unit', False)
    if which == 0:
        a = texts(ctx, 'a')
        t = UNM(Val.s(a.t))
        # assumed of the unit library and of _unmangle_scaling: a formatted unit parses to that unit
        ctx.assume(z3.Implies(um.PARSES(t), z3.And(
            um.PARSES(UNM(FMT(t))), FMT(UNM(FMT(t))) == FMT(t))))
        kind, out = outcome(lambda: interp.call(f, [a], as_unit))
        if kind == 'raise':
            ctx.cover('unknown')
            ctx.prove('only an unknown unit raises', out.cls is UndefinedUnitError)
            ctx.prove('it is unknown', z3.Not(um.PARSES(UNM(Val.s(a.t)))))
            return
        ctx.cover('text')
        ctx.prove('the current definitions are asked', reg.used >= 1)
        if want_unit:
            ctx.prove('the unit it denotes is given', isinstance(out, SMock) and
                      hasattr(out, 's') and ctx.entails(out.s == t))
            return
        ctx.prove('the text of the unit it denotes is given',
                  ctx.lift(out) == Val.str(FMT(t)))
        kind, again = outcome(lambda: interp.call(f, [out], as_unit))
        ctx.prove('the canonical form parses', kind == 'ret')
        ctx.prove('to itself', ctx.lift(again) == ctx.lift(out))
    elif which == 1:
        ctx.cover('none')
        kind, out = outcome(lambda: interp.call(f, [None], as_unit))
        if want_unit:
            ctx.prove('nothing is the dimensionless unit', kind == 'raise' or (
                isinstance(out, SMock) and hasattr(out, 's') and ctx.entails(
                    out.s == ctx.strlit(''))))
        else:
            ctx.prove('nothing stays nothing', kind == 'ret' and out is None)
    elif which == 2:
        ctx.cover('unit')
        u = reg.as_unit(ctx.fresh(Str, 'u'))
        kind, out = outcome(lambda: interp.call(f, [u], as_unit))
        ctx.prove('a unit is given as it is', kind == 'ret' and out is u)
    else:
        ctx.cover('other')
        x = ctx.any_value('x', [int, float, bool])
        kind, out = outcome(lambda: interp.call(f, [x], as_unit))
        ctx.prove('anything else raises', kind == 'raise' and out.cls is UndefinedUnitError)


@unit('C15', 'base units come with the factor and the offset of the definitions',
      covers=['text', 'unit', 'unknown'])
def base_units(ctx, interp):
    reg = start(ctx, interp)
    a = texts(ctx, 'a')
    s = Val.s(a.t)
    given = a
    if ctx.choose(2):
        ctx.cover('unit')
        ctx.assume(um.PARSES(s))
        given = reg.as_unit(s)
    kind, out = outcome(lambda: interp.call(impl.get_base_units, [given]))
    if kind == 'raise':
        ctx.cover('unknown')
        ctx.prove('only an unknown unit raises', out.cls is UndefinedUnitError)
        ctx.prove('it is unknown', z3.Not(um.PARSES(s)))
        return
    if given is a:
        ctx.cover('text')
    base, ratio, offset = [interp.getitem(out, i) for i in range(3)]
    ctx.prove('the base unit', isinstance(base, SMock) and ctx.entails(base.s == ROOT(s)))
    ctx.prove('its factor', ctx.lift(ratio) == Val.flt(RATIO(s)))
    ctx.prove('its offset is where zero is converted to', ctx.lift(offset) == Val.flt(
        um.UNBASE(ROOT(s), um.BASE(s, z3.RealVal(0)))))


# ---------------------------------------------------------------- changing the definitions
def memo_tables():
    """Every memo table of the package whose function can see the unit definitions, found in the
    code itself: functions that name the registry, or a function that does."""
    import pkgutil
    import importlib
    mods = [gemd] + [importlib.import_module(m.name) for m in pkgutil.walk_packages(
        gemd.__path__, 'gemd.')]

    def names(code):
        out = set(code.co_names)
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                out |= names(c)
        return out
    found = {}
    for m in mods:
        for holder in [m] + [v for v in vars(m).values() if isinstance(v, type)
                             and v.__module__ == m.__name__]:
            for n, v in vars(holder).items():
                v = getattr(v, '__func__', v)
                f = getattr(v, '__wrapped__', v)
                if isinstance(f, types.FunctionType) and f.__module__ == m.__name__:
                    found[(m.__name__, n)] = (v, names(f.__code__))
    sees = {'_REGISTRY'}
    while True:
        more = {n for (_, n), (_, used) in found.items() if used & sees} - sees
        # what is not memoised passes on what it sees; classes pass on through their methods
        if not more:
            break
        sees |= more
    return [(m, n, v) for (m, n), (v, used) in found.items()
            if isinstance(v, functools._lru_cache_wrapper) and used & sees]


class World:
    """The working directory, the memo tables and the file system as a change sees them.  Any step
    but returning to the former working directory may fail."""

    def __init__(self, ctx, interp):
        self.ctx, self.interp = ctx, interp
        self.cwd = 'start'
        self.stale = set()
        self.made = []
        self.old = Registry(ctx, interp, ' before')
        ctx.globals_[(NAME, '_REGISTRY')] = self.old.mock
        self.tables = {}
        for m, n, v in memo_tables():
            if m != NAME:
                raise Unsupported(f"a memo table outside {NAME} sees the definitions: {m}.{n}")
            self.tables[n] = v
            self.stale.add(n)
            self.ctx.globals_[(m, n)] = SMock(n, {
                '__call__': self.asked(n), 'cache_clear': self.cleared(n),
                'cache_info': lambda interp: SMock('cache_info', {})})
        os_mock = SMock('os', dict(
            chdir=self.chdir, getcwd=lambda interp: self.here(), path=os.path))
        ctx.globals_[(NAME, 'os')] = os_mock
        ctx.globals_[(NAME, 'Path')] = SMock('Path', {
            '__call__': lambda interp, x: x if isinstance(x, SMock) else self.path(x),
            'cwd': lambda interp: self.here()})
        ctx.globals_[(NAME, 'DEFAULT_FILE')] = self.path('default', absolute=True)
        ctx.globals_[(NAME, '_ScaleFactorRegistry')] = SMock('registry class', {
            '__call__': self.registry})

    def asked(self, n):
        def call(interp, *a, **k):
            self.stale.add(n)  # an answer by the definitions in force is memoised
            raise Unsupported("units are asked for while the definitions change")
        return call

    def cleared(self, n):
        def clear(interp):
            self.stale.discard(n)
        return clear

    def may_fail(self, cls, what):
        if self.ctx.choose(2):
            self.interp.raise_(cls, what)

    def chdir(self, interp, where):
        if isinstance(where, SMock) and getattr(where, 'is_dir', None):
            to = where.is_dir
        else:
            raise Unsupported("chdir to something else than a directory")
        if to != 'start':
            self.may_fail(OSError, 'chdir')
        self.cwd = to

    def here(self):
        d = self.directory(self.cwd)
        return d

    def directory(self, name):
        m = SMock('directory', dict(
            binop=lambda interp, op, b: self.join(name, b)))
        m.is_dir = name
        m.methods['resolve'] = lambda interp, strict=False: m
        m.methods['absolute'] = lambda interp: m
        return m

    def join(self, d, name):
        if getattr(name, 'name_of', None) is None or d != ('parent', name.name_of):
            raise Unsupported("some other file is looked up")
        return self.path(name.name_of, absolute=True)

    def path(self, x, absolute=False):
        m = SMock('path', {})
        m.file = x
        m.absolute = absolute

        def resolve(interp, strict=False):
            if strict:
                self.may_fail(FileNotFoundError, 'resolve')
            if not absolute and self.cwd != 'start':
                raise Unsupported("a relative path is resolved elsewhere")
            return self.path(x, absolute=True)
        name = SMock('name', {})
        name.name_of = x
        m.methods.update(
            expanduser=lambda interp: m, resolve=resolve,
            absolute=lambda interp: resolve(interp),
            parent=self.directory(('parent', x) if absolute else ('relative', x)),
            name=name)
        return m

    def registry(self, interp, *args, **kw):
        self.may_fail(OSError, 'definitions')
        f = kw.get('filename', args[0] if args else None)
        r = Registry(self.ctx, interp, ' after')
        r.file = f
        self.made.append(r)
        return r.mock


@unit('C15', 'a change of the definitions is complete or does nothing',
      covers=['changed', 'failed', 'default'])
def change(ctx, interp):
    w = World(ctx, interp)
    ctx.prove('memo tables see the definitions', bool(w.tables))
    default = ctx.choose(2) == 1
    given = None if default else texts(ctx, 'filename')
    kind, out = outcome(lambda: interp.call(impl.change_definitions_file, [given]))
    ctx.prove('the working directory is as it was', w.cwd == 'start')
    now = ctx.globals_[(NAME, '_REGISTRY')]
    if kind == 'raise':
        ctx.cover('failed')
        ctx.prove('a failed change leaves the definitions in force', now is w.old.mock)
        return
    ctx.cover('default' if default else 'changed')
    mine = [r for r in w.made if r.mock is now]
    ctx.prove('new definitions are in force', len(mine) == 1)
    if not mine:
        return
    f = getattr(mine[0], 'file', None)
    ctx.prove('they are read from the file asked for', isinstance(f, SMock)
              and getattr(f, 'absolute', False) and (
        f.file == 'default' if default else isinstance(f.file, SV) and f.file.t.eq(given.t)))
    for n in w.tables:
        ctx.prove(f'{n} forgets what it was asked before', n not in w.stale)


@unit('C15', 'every later question is answered by the new definitions', covers=['asked'])
def later(ctx, interp):
    w = World(ctx, interp)
    for n, v in w.tables.items():
        del ctx.globals_[(NAME, n)]
        ctx.globals_[(NAME, n)] = SMock(n, {'cache_clear': w.cleared(n)})
    kind, out = outcome(lambda: interp.call(impl.change_definitions_file, [None]))
    if kind == 'raise':
        return
    ctx.func_contracts[impl._unmangle_scaling] = \
        lambda interp, a, k: text(ctx, UNM(s_of(ctx, interp, a[0])))
    a, b = texts(ctx, 'a'), texts(ctx, 'b')
    ctx.prove('new definitions are read', bool(w.made))
    if not w.made:
        return
    new = w.made[-1]
    which = ctx.choose(3)
    if which == 0:
        outcome(lambda: interp.call(impl.parse_units, [a]))
    elif which == 1:
        ctx.assume(a.t != b.t)
        outcome(lambda: interp.call(impl.convert_units, [SV(Val.flt(ctx.fresh(R, 'x'))), a, b]))
    else:
        outcome(lambda: interp.call(impl.get_base_units, [a]))
    ctx.cover('asked')
    ctx.prove('the new definitions are asked', new.used >= 1)
    ctx.prove('the old ones are not', w.old.used == 0)

"""What bounds and values mean: the set of points they allow."""
import z3

from gemd.entity.bounds import (CategoricalBounds, CompositionBounds, IntegerBounds,
                                MolecularStructureBounds, RealBounds)
from gemd.entity.value import (NominalReal, NormalReal, DiscreteCategorical, EmpiricalFormula, InChI, NominalCategorical,
                               NominalComposition, NominalInteger, Smiles, UniformInteger)

from pyvc.values import *  # noqa: F401,F403
from pyvc.models import KPOS
from pyvc.values import B, DDOM, UNIVERSE, R, CSet, DomArr, I, Str, Val

from . import unitmodel as um
from .shapes import CATS, COMPS, INTS, MOLS, REALS

KINDS = {RealBounds: REALS, IntegerBounds: INTS, CategoricalBounds: CATS,
         CompositionBounds: COMPS, MolecularStructureBounds: MOLS}
ELEMENTS = z3.Function('FORMULA_ELEMENTS', Str, DomArr)
PURE = "EmpiricalFormula._elements (a regular expression): some set of texts given by the formula"


def elements(interp, args, kwargs):
    ctx = interp.ctx
    v = args[0]
    if not interp.decide(interp.isinstance_(v, str)):
        interp.raise_(TypeError)
    ctx.stats['assumed'].add(PURE)
    d = elements_of(ctx, v)
    r = ctx.alloc(set)
    ctx.set_content(r, CSet(dom=d))
    return r


def elements_of(ctx, v):
    return ELEMENTS(Val.s(ctx.lift(v)))


def install(ctx):
    um.install(ctx)
    f, k = z3.Const('f!el', Str), z3.Const('k!el', Val)
    ctx.assume(z3.ForAll([f, k], z3.Implies(ELEMENTS(f)[k], Val.is_str(k)),
                         patterns=[ELEMENTS(f)[k]]))
    ctx.func_contracts[EmpiricalFormula.__dict__['_elements'].__func__] = elements


class Region:
    """kind, and the set: (unit, lower, upper) | (lower, upper) | membership array | nothing."""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)

    def base(self):
        return um.BASE(self.unit, self.lo), um.BASE(self.unit, self.hi)


def region(interp, v):
    """The set of points a bounds or value allows; None where a value cannot form bounds."""
    ctx = interp.ctx

    def isa(*c):
        return interp.decide(interp.isinstance_(v, c))

    def get(f):
        return interp.getattr(v, f)
    if isa(RealBounds, *REALS):
        s, lo, hi = um.real_interval(ctx, interp, v)
        return None if lo is None else Region(RealBounds, unit=s, lo=lo, hi=hi)
    if isa(IntegerBounds, *INTS):
        f = ('_nominal', '_nominal') if isa(NominalInteger) else ('_lower_bound', '_upper_bound')
        lo, hi = (Val.i(ctx.lift(get(x))) for x in f)
        if not isa(NominalInteger):
            ctx.assume(lo <= hi)    # kept by the setters (C09)
        return Region(IntegerBounds, lo=lo, hi=hi)
    if isa(MolecularStructureBounds, *MOLS):
        return Region(MolecularStructureBounds)
    if isa(CategoricalBounds, *CATS):
        kind = CategoricalBounds
        if isa(CategoricalBounds):
            dom = ctx.set_term(interp.set_content_of(get('_categories')))
        elif isa(NominalCategorical):
            c = get('_category')
            if interp.decide(interp.is_(c, None)):
                return None
            dom = z3.Store(z3.K(Val, False), ctx.lift(c), True)
        else:
            p = get('_probabilities')
            if interp.decide(interp.is_(p, None)):
                return None
            dom = ctx.map_terms(interp.map_content(p))[0]
    elif isa(CompositionBounds, *COMPS):
        kind = CompositionBounds
        if isa(CompositionBounds):
            dom = ctx.set_term(interp.set_content_of(get('_components')))
        elif isa(NominalComposition):
            dom = ctx.map_terms(interp.map_content(get('_quantities')))[0]
            # a component that is no text cannot be part of bounds
            if ctx.choose(2):
                odd = ctx.any_value('odd')
                k = odd.t
                ctx.assume(dom[k])
                if interp.decide(interp.isinstance_(odd, str)):
                    ctx.assume(z3.BoolVal(False))
                n, arr = interp.dom_order(dom)
                ctx.inst_map(dom, k)
                ctx.witnesses.append((arr, z3.simplify(KPOS(dom, k))))
                return None
            q = z3.Const('q!txt', Val)
            text = z3.Or(*[clsof(q) == UNIVERSE.cid(c) for c in UNIVERSE.classes
                           if issubclass(c, str)])
            ctx.assume(z3.ForAll([q], z3.Implies(dom[q], text), patterns=[dom[q]]))
        else:
            f = get('_formula')
            if interp.decide(interp.is_(f, None)):
                return None
            dom = elements_of(ctx, f)
    else:
        return False
    return Region(kind, dom=dom)


def subset(a, b, k):
    """b is a subset of a, for regions of one kind; k is an arbitrary member for the set kinds (the
    formula is then: membership of k in b implies membership in a)."""
    if a.kind is RealBounds:
        (al, ah), (bl, bh) = a.base(), b.base()
        return z3.And(um.KIND(a.unit) == um.KIND(b.unit), al <= bl, bh <= ah)
    if a.kind is IntegerBounds:
        return z3.And(a.lo <= b.lo, b.hi <= a.hi)
    if a.kind is MolecularStructureBounds:
        return z3.BoolVal(True)
    return z3.Implies(b.dom[k], a.dom[k])


def pure(ctx, mark, tag):
    """Nothing that existed before has been changed."""
    ctx.prove(f'{tag}: nothing else is changed', not changes(ctx, mark))


def mark(ctx):
    return ({f: len(log) for f, log in ctx.fields.items()}, len(ctx.contents),
            ctx.next_addr)


def changes(ctx, m):
    """Writes since the mark to objects that existed then: [(address, field or None)]."""
    fields, nc, lo = m
    out = []
    for f, log in ctx.fields.items():
        out += [(a, f) for a, _ in log[fields.get(f, 0):] if not (isinstance(a, int) and a <= lo)]
    out += [(a, None) for a, _ in ctx.contents[nc:] if not (isinstance(a, int) and a <= lo)]
    return out


def is_(t, cls):
    return clsof(t) == UNIVERSE.cid(cls)


def fld(t, f):
    return z3.Function(f'H_{f}', I, Val)(Val.a(t))


def number(t):
    return z3.If(Val.is_int(t), z3.ToReal(Val.i(t)), Val.r(t))


def texts(cond, owner):
    """The members of a private set, or keys of a private dict, are strings."""
    k = z3.Const('k!texts', Val)
    dom = DDOM(Val.a(owner))
    return z3.Implies(cond, z3.ForAll([k], z3.Implies(dom[k], Val.is_str(k)), patterns=[dom[k]]))


class Terms:
    """The region of an arbitrary operand, as terms (no case split): for quantified statements."""

    def __init__(self, cls, t):
        self.cls, self.t = cls, t
        if cls is RealBounds:
            self.unit = Val.s(z3.If(is_(t, RealBounds), fld(t, '_default_units'),
                                    fld(t, '_units')))
            lo, hi = (z3.If(is_(t, RealBounds), fld(t, '_' + x),
                            z3.If(is_(t, NominalReal), fld(t, 'nominal'),
                                  z3.If(is_(t, NormalReal), fld(t, 'mean'), fld(t, x))))
                      for x in ('lower_bound', 'upper_bound'))
            self.finite = z3.And(*[z3.Or(Val.is_int(x), Val.is_flt(x)) for x in (lo, hi)])
            self.lo, self.hi = number(lo), number(hi)
            # one rule for both ends: an int and a float compare as numbers
            self.formed = z3.And(self.finite, self.lo <= self.hi)
        elif cls is IntegerBounds:
            self.lo, self.hi = (Val.i(z3.If(is_(t, NominalInteger), fld(t, '_nominal'),
                                            fld(t, '_' + x)))
                                for x in ('lower_bound', 'upper_bound'))
            self.formed = z3.BoolVal(True)
        else:
            self.formed = z3.BoolVal(True)
            if cls is CategoricalBounds:
                self.formed = z3.And(
                    z3.Implies(is_(t, NominalCategorical), Val.is_str(fld(t, '_category'))),
                    z3.Implies(is_(t, DiscreteCategorical), Val.is_ref(fld(t, '_probabilities'))))
            elif cls is CompositionBounds:
                q = z3.Const('q!comp', Val)
                text = z3.Or(*[clsof(q) == UNIVERSE.cid(c) for c in UNIVERSE.classes
                               if issubclass(c, str)])
                dom = DDOM(Val.a(fld(t, '_quantities')))
                self.formed = z3.And(
                    z3.Implies(is_(t, EmpiricalFormula), Val.is_str(fld(t, '_formula'))),
                    z3.Implies(is_(t, NominalComposition),
                               z3.ForAll([q], z3.Implies(dom[q], text), patterns=[dom[q]])))

    def has(self, k):
        """Membership of a point in the set an operand allows."""
        t = self.t
        if self.cls is CategoricalBounds:
            return z3.If(is_(t, CategoricalBounds), DDOM(Val.a(fld(t, '_categories')))[k],
                         z3.If(is_(t, NominalCategorical), k == fld(t, '_category'),
                               DDOM(Val.a(fld(t, '_probabilities')))[k]))
        return z3.If(is_(t, CompositionBounds), DDOM(Val.a(fld(t, '_components')))[k],
                     z3.If(is_(t, NominalComposition), DDOM(Val.a(fld(t, '_quantities')))[k],
                           ELEMENTS(Val.s(fld(t, '_formula')))[k]))

    def facts(self, ctx):
        """What the invariants of the operand's class give (C09), for every operand."""
        t = self.t
        if self.cls is RealBounds:
            return z3.And(
                um.PARSES(self.unit), um.CANON(self.unit) == self.unit,
                z3.Implies(is_(t, RealBounds), self.formed))
        if self.cls is IntegerBounds:
            return self.lo <= self.hi
        if self.cls is CategoricalBounds:
            return z3.And(texts(is_(t, CategoricalBounds), fld(t, '_categories')),
                          texts(is_(t, DiscreteCategorical), fld(t, '_probabilities')))
        if self.cls is CompositionBounds:
            return texts(is_(t, CompositionBounds), fld(t, '_components'))
        return z3.BoolVal(True)


def new_bounds(ctx, interp, r):
    """A new bounds object with the given region."""
    o = ctx.alloc(r.kind)

    def put(f, v):
        ctx.write_field(o, f, v)
    if r.kind is RealBounds:
        put('_default_units', SV(Val.str(r.unit)))
        put('_lower_bound', SV(Val.flt(r.lo)))
        put('_upper_bound', SV(Val.flt(r.hi)))
    elif r.kind is IntegerBounds:
        put('_lower_bound', SV(Val.int(r.lo)))
        put('_upper_bound', SV(Val.int(r.hi)))
    elif r.kind is not MolecularStructureBounds:
        s = ctx.alloc(set)
        ctx.set_content(s, CSet(dom=r.dom))
        put('_categories' if r.kind is CategoricalBounds else '_components', s)
    return o


def to_bounds(interp, args, kwargs):
    """The contract of _to_bounds, which C09 proves of every value class: new bounds with the region
    of the value, or an error if its numbers or names can form none."""
    ctx = interp.ctx
    t = ctx.lift(args[0])
    cls = next(k for k, vs in KINDS.items() if ctx.candidates(args[0]) <= set(vs))
    e = Terms(cls, t)
    if not ctx.branch(e.formed):
        interp.raise_(ValueError, "the value cannot form bounds")
    r = Region(cls)
    if cls is RealBounds:
        r.unit, r.lo, r.hi = e.unit, e.lo, e.hi
    elif cls is IntegerBounds:
        r.lo, r.hi = e.lo, e.hi
    elif cls is not MolecularStructureBounds:
        r.dom = ctx.fresh(DomArr, 'bounds')
        k = z3.Const('k!bnd', Val)
        ctx.assume(z3.ForAll([k], r.dom[k] == e.has(k), patterns=[r.dom[k]]))
    return new_bounds(ctx, interp, r)


def install_to_bounds(ctx):
    for vs in KINDS.values():
        for c in vs:
            ctx.func_contracts[c._to_bounds] = to_bounds

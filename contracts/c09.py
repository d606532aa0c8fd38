"""C09: bounds and values are always well formed, and values have minimal bounds."""
import z3

from gemd.entity.bounds import (CategoricalBounds, CompositionBounds, IntegerBounds,
                                MolecularStructureBounds, RealBounds)
from gemd.entity.value import (DiscreteCategorical, EmpiricalFormula, InChI, NominalCategorical,
                               NominalComposition, NominalInteger, NominalReal, NormalReal,
                               Smiles, UniformInteger, UniformReal)

from pyvc.models import KPOS
from pyvc.unit import unit, outcome
from pyvc.values import *  # noqa: F401,F403
from pyvc.values import B, DDOM, DMAP, I, R, Str, UNIVERSE, Val

from . import regions as rg
from . import texts as tx
from . import unitmodel as um
from .common import instance
from .shapes import SHAPES, VALUES


# ------------------------------------------------------------- the bounds of a value
def to_bounds_unit(cls):
    kind_ = next(k for k, vs in rg.KINDS.items() if cls in vs)
    can_fail = cls not in (NominalInteger, UniformInteger, Smiles, InChI)

    @unit('C09', f'{cls.__name__}._to_bounds: the smallest bounds of the value',
          covers=['bounds'] + ['refused'] * can_fail)
    def u(ctx, interp):
        rg.install(ctx)
        v = ctx.obj(cls, 'value')
        rv = rg.region(interp, v)
        k = ctx.fresh(Val, 'point')
        mark = rg.mark(ctx)
        kind, r = outcome(lambda: interp.call(interp.getattr(v, '_to_bounds'), []))
        ctx.prove('asking for bounds changes nothing', not rg.changes(ctx, mark))
        if kind == 'raise':
            ctx.cover('refused')
            ctx.prove('refused only if the value cannot form bounds', rv is None)
            return
        ctx.cover('bounds')
        ctx.prove('a value that cannot form bounds is refused', rv is not None)
        if rv is None:
            return
        a = ctx.addr(r)
        ctx.prove('the bounds are new', isinstance(a, int) and a <= mark[2])
        ctx.prove('the bounds are of the kind of the value',
                  interp.decide(interp.isinstance_(r, kind_)))
        well_formed(ctx, interp, r, kind_)
        rb = rg.region(interp, r)
        if kind_ is RealBounds:
            ctx.prove('the bounds are in the units of the value', rb.unit == rv.unit)
        if kind_ in (RealBounds, IntegerBounds):
            ctx.prove('the bounds are the range of the value',
                      z3.And(rb.lo == rv.lo, rb.hi == rv.hi))
        elif kind_ is not MolecularStructureBounds:
            ctx.inst_map(rb.dom, k)
            ctx.prove('the bounds are the names of the value', rb.dom[k] == rv.dom[k])


def well_formed(ctx, interp, o, cls):
    """The invariant of bounds and integer values."""
    def get(f):
        return ctx.lift(interp.getattr(o, f))
    if cls is RealBounds:
        lo, hi, u = get('_lower_bound'), get('_upper_bound'), get('_default_units')
        ctx.prove('well formed: finite numbers', z3.And(Val.is_flt(lo), Val.is_flt(hi)))
        ctx.prove('well formed: the lower is not above the upper', Val.r(lo) <= Val.r(hi))
        ctx.prove('well formed: the units are in canonical form',
                  z3.And(Val.is_str(u), um.PARSES(Val.s(u)), um.CANON(Val.s(u)) == Val.s(u)))
    elif cls in (IntegerBounds, UniformInteger):
        lo, hi = get('_lower_bound'), get('_upper_bound')
        ctx.prove('well formed: integers', z3.And(Val.is_int(lo), Val.is_int(hi)))
        ctx.prove('well formed: the lower is not above the upper', Val.i(lo) <= Val.i(hi))
    elif cls is NominalInteger:
        ctx.prove('well formed: an integer', Val.is_int(get('_nominal')))
    elif cls in (CategoricalBounds, CompositionBounds):
        s = interp.getattr(o, NAMES[cls][0])
        ctx.prove('well formed: a set', interp.decide(interp.isinstance_(s, set)))
        dom = ctx.set_term(interp.set_content_of(s))
        k = ctx.fresh(Val, 'name')
        ctx.inst_map(dom, k)
        ctx.touch(k)
        n, arr = interp.dom_order(dom)
        ctx.witnesses.append((arr, z3.simplify(KPOS(dom, k))))
        ctx.prove('well formed: the names are strings', z3.Implies(dom[k], text(k)))


def text(k):
    return z3.Or(*[clsof(k) == UNIVERSE.cid(c) for c in UNIVERSE.classes if issubclass(c, str)])


NAMES = {CategoricalBounds: ('_categories', 'categories'),
         CompositionBounds: ('_components', 'components')}
for _c in VALUES:
    to_bounds_unit(_c)


# ------------------------------------------------------------- numbers
def finite(ctx, interp, v):
    """The number as a real, or None if the value is no finite number."""
    if not instance(interp, v, (int, float, bool)):
        return None
    k, t = interp.numeric_term(v)
    if k not in ('int', 'flt', 'bool'):
        return None
    return interp._real(k, t)


def anything(ctx, hint):
    """Any value but members of integer enumerations."""
    return ctx.any_value(hint, [c for c in UNIVERSE.classes
                                if c in (int, bool) or not issubclass(c, (int, float))
                                or c is float])


def integral(x):
    return z3.ToReal(z3.ToInt(x)) == x


def fields(ctx, interp, o, cls):
    return {f: ctx.lift(interp.getattr(o, f)) for f in SHAPES.all_fields(cls)}


def stays(ctx, interp, o, cls, before, but=()):
    after = fields(ctx, interp, o, cls)
    for f, t in before.items():
        if f not in but:
            ctx.prove('what is not assigned stays as it was', after[f] == t)


RANGES = {RealBounds: False, IntegerBounds: True, UniformInteger: True}


def end_setter(cls, end):
    whole = RANGES[cls]

    @unit('C09', f'{cls.__name__}.{end} = ...', covers=['accepted', 'refused', 'no number'])
    def u(ctx, interp):
        rg.install(ctx)
        o = ctx.obj(cls, 'range')
        rg.region(interp, o)
        before = fields(ctx, interp, o, cls)
        v = anything(ctx, 'number')
        x = finite(ctx, interp, v)
        kind, r = outcome(lambda: interp.setattr(o, end, v))
        well_formed(ctx, interp, o, cls)
        if kind == 'raise':
            stays(ctx, interp, o, cls, before)
        else:
            stays(ctx, interp, o, cls, before, but=('_' + end,))
        if x is None:
            ctx.cover('no number')
            ctx.prove('what is no finite number is refused', kind == 'raise')
            return
        other = rg.number(before['_upper_bound' if end == 'lower_bound' else '_lower_bound'])
        fits = x <= other if end == 'lower_bound' else other <= x
        if whole:
            fits = z3.And(fits, integral(x))
        if kind == 'raise':
            ctx.cover('refused')
            ctx.prove('refused only if the range would be ill formed', z3.Not(fits))
        else:
            ctx.cover('accepted')
            ctx.prove('the number given is stored',
                      rg.number(ctx.lift(interp.getattr(o, '_' + end))) == x)
            ctx.prove('an ill-formed range is refused', fits)


def range_ctor(cls):
    whole = RANGES[cls]

    @unit('C09', f'{cls.__name__}(lower, upper)', covers=['accepted', 'refused', 'no number'],
          budget=300)
    def u(ctx, interp):
        rg.install(ctx)
        lo, hi = anything(ctx, 'lower'), anything(ctx, 'upper')
        args = [lo, hi]
        if cls is RealBounds:
            args.append('')
        xs = [finite(ctx, interp, v) for v in (lo, hi)]
        kind, r = outcome(lambda: interp.call(cls, args))
        if kind == 'ret':
            well_formed(ctx, interp, r, cls)
        if None in xs:
            ctx.cover('no number')
            ctx.prove('what is no finite number is refused', kind == 'raise')
            return
        fits = xs[0] <= xs[1]
        if whole:
            fits = z3.And(fits, integral(xs[0]), integral(xs[1]))
        if kind == 'raise':
            ctx.cover('refused')
            ctx.prove('refused only if the range would be ill formed', z3.Not(fits))
        else:
            ctx.cover('accepted')
            ctx.prove('an ill-formed range is refused', fits)
            for f, x in zip(('_lower_bound', '_upper_bound'), xs):
                ctx.prove('the numbers given are stored',
                          rg.number(ctx.lift(interp.getattr(r, f))) == x)


for _c in RANGES:
    range_ctor(_c)
    for _e in ('lower_bound', 'upper_bound'):
        end_setter(_c, _e)


@unit('C09', 'NominalInteger(...), .nominal = ...', covers=['accepted', 'refused', 'no number'])
def u_nominal_integer(ctx, interp):
    rg.install(ctx)
    v = anything(ctx, 'number')
    x = finite(ctx, interp, v)
    if ctx.choose(2):
        o = ctx.obj(NominalInteger, 'value')
        before = fields(ctx, interp, o, NominalInteger)
        kind, r = outcome(lambda: interp.setattr(o, 'nominal', v))
        if kind == 'raise':
            stays(ctx, interp, o, NominalInteger, before)
        well_formed(ctx, interp, o, NominalInteger)
    else:
        kind, o = outcome(lambda: interp.call(NominalInteger, [v]))
    if x is None:
        ctx.cover('no number')
        ctx.prove('what is no finite number is refused', kind == 'raise')
    elif kind == 'raise':
        ctx.cover('refused')
        ctx.prove('refused only if the number is not integral', z3.Not(integral(x)))
    else:
        ctx.cover('accepted')
        well_formed(ctx, interp, o, NominalInteger)
        ctx.prove('the number given is stored',
                  rg.number(ctx.lift(interp.getattr(o, '_nominal'))) == x)


# ------------------------------------------------------------- units
CONTINUOUS = {RealBounds: 'default_units', NominalReal: 'units', NormalReal: 'units',
              UniformReal: 'units'}


def units_setter(cls, attr):
    @unit('C09', f'{cls.__name__}.{attr} = ...', covers=['accepted', 'refused'])
    def u(ctx, interp):
        rg.install(ctx)
        o = ctx.obj(cls, 'o')
        rg.region(interp, o)
        before = fields(ctx, interp, o, cls)
        v = ctx.any_value('units')
        kind, r = outcome(lambda: interp.setattr(o, attr, v))
        good = instance(interp, v, str)
        if kind == 'raise':
            stays(ctx, interp, o, cls, before)
            ctx.cover('refused')
            ctx.prove('refused only what is no unit', not good or z3.Not(um.PARSES(key(ctx, v))))
        else:
            stays(ctx, interp, o, cls, before, but=('_' + attr,))
            ctx.cover('accepted')
            ctx.prove('what is no unit is refused', good and um.PARSES(key(ctx, v)))
            if good:
                ctx.prove('the canonical form of the unit is stored',
                          ctx.lift(interp.getattr(o, attr)) == Val.str(um.CANON(key(ctx, v))))
        if cls is RealBounds:
            well_formed(ctx, interp, o, cls)


def key(ctx, v):
    return Val.s(ctx.lift(v))


for _c, _a in CONTINUOUS.items():
    units_setter(_c, _a)


# ------------------------------------------------------------- names
def names_setter(cls):
    private, public = NAMES[cls]

    @unit('C09', f'{cls.__name__}({public}), .{public} = ...',
          covers=['none', 'names', 'not names', 'no collection'])
    def u(ctx, interp):
        rg.install(ctx)
        v = ctx.any_value('names')
        none = interp.decide(interp.is_(v, None))
        if instance(interp, v, set):
            dom = ctx.set_term(interp.set_content_of(v))
            n, arr = interp.dom_order(dom)
        elif instance(interp, v, (list, tuple)):
            c = interp.seq_content(v)
            n, arr = ctx.seq_terms(c)
            dom = None
        else:
            dom = n = arr = None
        i = z3.Int('i!given')
        every = None
        if arr is not None:
            every = ctx.choose(2) == 1
            if every:
                ok = z3.Implies(z3.And(0 <= i, i < n), text(arr[i]))
                ctx.assume(z3.ForAll([i], ok, patterns=[arr[i]]))
                ctx.element_lemmas.append((i, ok, None))
            else:
                w = ctx.fresh(I, 'odd')
                ctx.assume(z3.And(0 <= w, w < n, z3.Not(text(arr[w]))))
                ctx.touch(arr[w])
                ctx.witnesses.append((arr, w))
        construct = ctx.choose(2)
        if construct:
            kind, o = outcome(lambda: interp.call(cls, [v]))
        else:
            o = ctx.obj(cls, 'o')
            old = interp.getattr(o, private)
            own = ctx.set_term(interp.set_content_of(old))
            kind, r = outcome(lambda: interp.setattr(o, public, v))
            if kind == 'raise':
                ctx.prove('refused: the names stay', interp.decide(
                    interp.is_(interp.getattr(o, private), old)))
                k = ctx.fresh(Val, 'k')
                ctx.prove('refused: the names stay as they were',
                          ctx.set_term(interp.set_content_of(old))[k] == own[k])
        if kind == 'ret':
            well_formed(ctx, interp, o, cls)
            s = interp.getattr(o, private)
            a = ctx.addr(s)
            ctx.prove('the set is its own', isinstance(a, int) and a < 0)
            res = ctx.set_term(interp.set_content_of(s))
        if none:
            ctx.cover('none')
            k = ctx.fresh(Val, 'k')
            ctx.prove('nothing given: no names', kind == 'ret' and z3.Not(res[k]))
        elif arr is None:
            ctx.cover('no collection')
            ctx.prove('what is no list, tuple or set is refused', kind == 'raise')
        elif not every:
            ctx.cover('not names')
            ctx.prove('anything but strings is refused', kind == 'raise')
        else:
            ctx.cover('names')
            ctx.prove('strings are accepted', kind == 'ret')
            if kind == 'ret':
                w = ctx.fresh(I, 'given')
                ctx.witnesses.append((arr, w))
                ctx.prove('every name given is kept',
                          z3.Implies(z3.And(0 <= w, w < n), res[arr[w]]))
                k = ctx.fresh(Val, 'k')
                if dom is None:
                    ctx.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), arr[i] != k),
                                         patterns=[arr[i]]))
                else:
                    ctx.assume(z3.Not(dom[k]))
                ctx.prove('no other name is kept', z3.Not(res[k]))


for _c in NAMES:
    names_setter(_c)


# ------------------------------------------------------------- texts
TEXTS = {NominalCategorical: 'category', Smiles: 'smiles', EmpiricalFormula: 'formula'}


def text_setter(cls, attr):
    covers = ['none', 'text', 'no text'] + (['unknown element'] if cls is EmpiricalFormula else [])

    @unit('C09', f'{cls.__name__}({attr}), .{attr} = ...', covers=covers)
    def u(ctx, interp):
        rg.install(ctx)
        v = ctx.any_value('text')
        none = interp.decide(interp.is_(v, None))
        good = instance(interp, v, str)
        known = True
        if good and cls is EmpiricalFormula:
            dom = rg.elements_of(ctx, v)
            q = z3.Const('q!elem', Val)
            table = [Val.str(ctx.strlit(e)) for e in PERIODIC]
            known = ctx.choose(2) == 1
            if known:
                ctx.assume(z3.ForAll([q], z3.Implies(dom[q], z3.Or([q == e for e in table])),
                                     patterns=[dom[q]]))
            else:
                k = ctx.fresh(Val, 'unknown element')
                ctx.assume(dom[k])
                ctx.assume(z3.And([k != e for e in table]))
                n, arr = interp.dom_order(dom)
                ctx.inst_map(dom, k)
                ctx.witnesses.append((arr, z3.simplify(KPOS(dom, k))))
        if ctx.choose(2):
            o = ctx.obj(cls, 'value')
            before = fields(ctx, interp, o, cls)
            kind, r = outcome(lambda: interp.setattr(o, attr, v))
            if kind == 'raise':
                stays(ctx, interp, o, cls, before)
        else:
            kind, o = outcome(lambda: interp.call(cls, [v]))
        if none:
            ctx.cover('none')
        elif not good:
            ctx.cover('no text')
        elif known:
            ctx.cover('text')
        else:
            ctx.cover('unknown element')
        ctx.prove('accepted: nothing, or a text' + ' of known elements' * (len(covers) > 3),
                  (kind == 'ret') == (none or good and known))
        if kind == 'ret':
            ctx.prove('what is given is stored',
                      ctx.lift(interp.getattr(o, '_' + attr)) == ctx.lift(v))


PERIODIC = """H D T He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu
Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba Hf Ta W Re Os Ir Pt
Au Hg Tl Pb Bi Po At Rn Fr Ra Rf Db Sg Bh Hs Mt Ds Rg Cn Nh Fl Mc Lv Ts Og La Ce Pr Nd Pm Sm Eu Gd
Tb Dy Ho Er Tm Yb Lu Ac Th Pa U Np Pu Am Cm Bk Cf Es Fm Md No Lr""".split()
for _c, _a in TEXTS.items():
    text_setter(_c, _a)


# ------------------------------------------------------------- real values
@unit('C09', 'UniformReal(lower, upper, units)', covers=['accepted', 'refused'])
def u_uniform_real(ctx, interp):
    rg.install(ctx)
    lo, hi = anything(ctx, 'lower'), anything(ctx, 'upper')
    xs = [finite(ctx, interp, v) for v in (lo, hi)]
    kind, r = outcome(lambda: interp.call(UniformReal, [lo, hi, '']))
    if None in xs:
        return
    if kind == 'ret':
        ctx.cover('accepted')
        ctx.prove('a reversed range is refused', xs[0] <= xs[1])
        for f, x in zip(('lower_bound', 'upper_bound'), (lo, hi)):
            ctx.prove('the numbers given are kept',
                      ctx.lift(interp.getattr(r, f)) == ctx.lift(x))
    else:
        ctx.cover('refused')
        ctx.prove('only a reversed range is refused', xs[0] > xs[1])


@unit('C09', 'NominalReal(nominal, units)', covers=['accepted', 'refused'])
def u_nominal_real(ctx, interp):
    rg.install(ctx)
    v = anything(ctx, 'number')
    x = finite(ctx, interp, v)
    kind, r = outcome(lambda: interp.call(NominalReal, [v, '']))
    if x is not None:
        ctx.cover('accepted')
        ctx.prove('a finite number is accepted', kind == 'ret')
        if kind == 'ret':
            ctx.prove('the number given is kept',
                      rg.number(ctx.lift(interp.getattr(r, 'nominal'))) == x)
    elif not instance(interp, v, float):
        ctx.cover('refused')
        ctx.prove('what is no number is refused', kind == 'raise')


# ------------------------------------------------------------- compositions and distributions
SUM = z3.Function('SUM_OF_VALUES', Val, R)


def sum_contract(interp, seq, start):
    """The sum of the values of a dict: some number, given by the dict (it is not changed here)."""
    ctx = interp.ctx
    if start != 0 or ctx.summed is None:
        interp.raise_(TypeError)
    if ctx.choose(2):
        ctx.sum_failed = True
        interp.raise_(TypeError)  # values that cannot be added
    ctx.stats['assumed'].add("sum of the values of a mapping: some number given by the mapping")
    return SV(Val.flt(SUM(ctx.lift(ctx.summed))))


@unit('C09', 'DiscreteCategorical(probabilities), .probabilities = ...',
      covers=['none', 'one', 'distribution', 'sum', 'not names', 'nothing of the kind'], budget=300)
def u_discrete(ctx, interp):
    rg.install(ctx)
    v = ctx.any_value('probabilities')
    ctx.summed, ctx.sum_failed = None, False
    ctx.sum_hook = sum_contract
    none = interp.decide(interp.is_(v, None))
    one = instance(interp, v, str)
    many = not one and instance(interp, v, dict)
    names = True
    if many:
        ctx.summed = v
        dom, m = ctx.map_terms(interp.map_content(v))
        n, arr = interp.dom_order(dom)
        names = ctx.choose(2) == 1
        k = ctx.fresh(Val, 'name')
        ctx.touch(k)
        ctx.inst_map(dom, k)
        ctx.witnesses.append((arr, z3.simplify(KPOS(dom, k))))
        if names:
            q = z3.Const('q!name', Val)
            ctx.assume(z3.ForAll([q], z3.Implies(dom[q], text(q)), patterns=[dom[q]]))
        else:
            ctx.assume(z3.And(dom[k], z3.Not(text(k))))
    construct = ctx.choose(2)
    if construct:
        kind, o = outcome(lambda: interp.call(DiscreteCategorical, [v]))
    else:
        o = ctx.obj(DiscreteCategorical, 'value')
        before = fields(ctx, interp, o, DiscreteCategorical)
        mark = rg.mark(ctx)
        kind, r = outcome(lambda: interp.setattr(o, 'probabilities', v))
        if kind == 'raise':
            stays(ctx, interp, o, DiscreteCategorical, before)
            ctx.prove('refused: nothing changes', not rg.changes(ctx, mark))
    if kind == 'ret':
        p = interp.getattr(o, '_probabilities')
        kept = not interp.decide(interp.is_(p, None))
        if kept:
            pdom, pm = ctx.map_terms(interp.map_content(p))
            a = ctx.addr(p)
            ctx.prove('the distribution is its own', isinstance(a, int) and a < 0)
    if none:
        ctx.cover('none')
        ctx.prove('nothing is accepted', kind == 'ret' and not kept)
    elif one:
        ctx.cover('one')
        ctx.prove('a single name is accepted', kind == 'ret' and kept)
        if kind == 'ret' and kept:
            k = ctx.fresh(Val, 'k')
            ctx.prove('... with certainty', z3.And(
                pdom[k] == (k == ctx.lift(v)), rg.number(pm[ctx.lift(v)]) == 1))
    elif not many:
        ctx.cover('nothing of the kind')
        ctx.prove('anything but a name or dict is refused', kind == 'raise')
    elif kind == 'ret':
        ctx.cover('distribution')
        ctx.prove('names are strings', names)
        s = SUM(ctx.lift(v))
        ctx.prove('probabilities sum to one', z3.And(s - 1 <= TOL, 1 - s <= TOL))
        ctx.inst_map(pdom, k)
        ctx.prove('the distribution given is kept', z3.And(
            pdom[k] == dom[k], z3.Implies(dom[k], pm[k] == m[k])))
    else:
        ctx.cover('sum')
        if not names:
            ctx.cover('not names')
        elif not ctx.sum_failed:
            s = SUM(ctx.lift(v))
            ctx.prove('a distribution over names is accepted',
                      z3.Or(s - 1 > LOW, 1 - s > LOW))


TOL = z3.RealVal('0.000000001000001')
LOW = z3.RealVal('0.000000000999999')


@unit('C09', 'NominalComposition(quantities), .quantities = ...',
      covers=['none', 'dict', 'refused'])
def u_composition(ctx, interp):
    rg.install(ctx)
    v = ctx.any_value('quantities')
    none = interp.decide(interp.is_(v, None))
    if instance(interp, v, list):
        return  # pairs: sampled
    many = instance(interp, v, dict)
    construct = ctx.choose(2)
    if construct:
        kind, o = outcome(lambda: interp.call(NominalComposition, [v]))
    else:
        o = ctx.obj(NominalComposition, 'value')
        before = fields(ctx, interp, o, NominalComposition)
        kind, r = outcome(lambda: interp.setattr(o, 'quantities', v))
        if kind == 'raise':
            stays(ctx, interp, o, NominalComposition, before)
    if none:
        ctx.cover('none')
        ctx.prove('nothing given: no quantities', kind == 'ret' and interp.decide(
            interp.eq(interp.len_(interp.getattr(o, '_quantities')), 0)))
    elif many:
        ctx.cover('dict')
        ctx.prove('a dict is kept', kind == 'ret')
        if kind == 'ret':
            k = ctx.fresh(Val, 'k')
            d0, m0 = ctx.map_terms(interp.map_content(v))
            d1, m1 = ctx.map_terms(interp.map_content(interp.getattr(o, '_quantities')))
            ctx.inst_map(d1, k)
            ctx.prove('with its quantities', z3.And(d0[k] == d1[k],
                                                    z3.Implies(d0[k], m0[k] == m1[k])))
    else:
        ctx.cover('refused')
        ctx.prove('anything else is refused', kind == 'raise')


# ------------------------------------------------------------- InChI normalisation
@unit('C09', 'InChI(inchi), .inchi = ...', covers=['none', 'text', 'no text'])
def u_inchi(ctx, interp):
    ctx.text_hook = tx.hook
    v = ctx.any_value('text')
    none = interp.decide(interp.is_(v, None))
    good = instance(interp, v, str)
    if ctx.choose(2):
        o = ctx.obj(InChI, 'value')
        before = fields(ctx, interp, o, InChI)
        kind, r = outcome(lambda: interp.setattr(o, 'inchi', v))
        if kind == 'raise':
            stays(ctx, interp, o, InChI, before)
    else:
        kind, o = outcome(lambda: interp.call(InChI, [v]))
    ctx.prove('accepted: nothing, or a text', (kind == 'ret') == (none or good))
    if kind != 'ret':
        ctx.cover('no text')
        return
    r = interp.getattr(o, 'inchi')
    if none:
        ctx.cover('none')
        ctx.prove('nothing is kept as nothing', interp.decide(interp.is_(r, None)))
        return
    ctx.cover('text')
    ctx.prove('the normal form is a text', interp.decide(interp.isinstance_(r, str)))
    ctx.touch(ctx.lift(r))
    if not set(ctx.candidates(v)) == {str}:
        return  # members of text enumerations
    raw, norm = tx.content(ctx, key(ctx, v)), tx.content(ctx, key(ctx, r))
    head, short = z3.StringVal('InChI'), z3.StringVal('InChI=1S/')
    ctx.prove('the normal form has the prefix', z3.PrefixOf(head, norm))
    ctx.prove('a text with the prefix is kept', z3.Implies(z3.PrefixOf(head, raw), norm == raw))

    def rest(i):
        return z3.SubString(raw, i, z3.Length(raw) - i)
    long_, bare = tx.lower_prefix(raw, 'inchi'), tx.lower_prefix(raw, '1s/')
    ctx.prove('only the prefix changes', z3.If(
        bare, norm == z3.Concat(short, rest(3)),
        z3.If(long_, norm == z3.Concat(head, rest(5)), norm == z3.Concat(short, raw))))
    kind, o2 = outcome(lambda: interp.call(InChI, [r]))
    ctx.prove('the normal form can be normalised', kind == 'ret')
    if kind == 'ret':
        again = tx.content(ctx, key(ctx, interp.getattr(o2, 'inchi')))
        ctx.prove('normalisation is idempotent', again == norm)

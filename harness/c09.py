"""C09 concrete contract: well-formed bounds and values; minimal bounds of a value."""
import math
import re

from gemd.entity.bounds import (CategoricalBounds, CompositionBounds, IntegerBounds,
                                MolecularStructureBounds, RealBounds)
from gemd.entity.value import (DiscreteCategorical, EmpiricalFormula, InChI, NominalCategorical,
                               NominalComposition, NominalInteger, NominalReal, NormalReal,
                               Smiles, UniformInteger, UniformReal)
from gemd.units import parse_units

from . import gen

JUNK = [None, float('nan'), float('inf'), float('-inf'), 'x', '1', '', [], [1], {}, object(), (), b'a']
ELEMENTS = set("""H D T He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu
Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba Hf Ta W Re Os Ir Pt
Au Hg Tl Pb Bi Po At Rn Fr Ra Rf Db Sg Bh Hs Mt Ds Rg Cn Nh Fl Mc Lv Ts Og La Ce Pr Nd Pm Sm Eu Gd
Tb Dy Ho Er Tm Yb Lu Ac Th Pa U Np Pu Am Cm Bk Cf Es Fm Md No Lr""".split())


def number(rng):
    r = rng.random()
    if r < 0.25:
        return rng.choice(JUNK)
    if r < 0.5:
        return rng.randint(-5, 5)
    if r < 0.6:
        return float(rng.randint(-5, 5))
    if r < 0.7:
        return rng.choice([True, False, 2 ** 60 + 1, -2 ** 70, 10 ** 250, 1e308, -1e308, 0.5, -0.0])
    return rng.uniform(-5, 5)


def state(o):
    return {k: (set(v) if isinstance(v, set) else dict(v) if isinstance(v, dict) else v)
            for k, v in vars(o).items()}


def same(a, b):
    return a.keys() == b.keys() and all(
        type(a[k]) is type(b[k]) and (a[k] == b[k] or a[k] != a[k] and b[k] != b[k]) for k in a)


def attempt(o, attr, v):
    """Assign; on rejection the previous state stays."""
    before = state(o)
    try:
        setattr(o, attr, v)
    except Exception:
        assert same(state(o), before), f"rejected {attr}={v!r} changed {type(o).__name__} " \
                                       f"from {before} to {state(o)}"
        return False
    return True


def real_ok(b):
    lo, hi = b.lower_bound, b.upper_bound
    assert type(lo) is float and type(hi) is float and math.isfinite(lo) and math.isfinite(hi), \
        f"endpoints {lo!r}, {hi!r}"
    assert lo <= hi, f"lower bound {lo} above upper bound {hi}"
    assert isinstance(b.default_units, str) and parse_units(b.default_units) == b.default_units


def int_ok(b):
    lo, hi = b.lower_bound, b.upper_bound
    assert type(lo) is int and type(hi) is int, f"endpoints {lo!r}, {hi!r}"
    assert lo <= hi, f"lower bound {lo} above upper bound {hi}"


def finite_number(v):
    return isinstance(v, (int, float)) and (isinstance(v, int) or math.isfinite(v))


def ranges(rng):
    kind = rng.choice(['real', 'int', 'uint', 'nint'])
    a, b = number(rng), number(rng)
    ok = real_ok if kind == 'real' else int_ok
    try:
        o = {'real': lambda: RealBounds(a, b, 'm'), 'int': lambda: IntegerBounds(a, b),
             'uint': lambda: UniformInteger(a, b), 'nint': lambda: NominalInteger(a)}[kind]()
    except Exception:
        if finite_number(a) and finite_number(b) and abs(a) < 1e300 and abs(b) < 1e300:
            if kind == 'real':
                assert a > b, f"RealBounds({a!r}, {b!r}) was rejected"
            elif int(a) == a and int(b) == b:
                assert kind != 'nint' and a > b, f"{kind} {a!r}, {b!r} was rejected"
        o = RealBounds(0, 1, 'm') if kind == 'real' else IntegerBounds(0, 1) if kind == 'int' else \
            UniformInteger(0, 1) if kind == 'uint' else NominalInteger(0)
    for _ in range(rng.randint(1, 5)):
        if kind == 'nint':
            v = number(rng)
            if attempt(o, 'nominal', v):
                assert type(o.nominal) is int and o.nominal == v, f"nominal {v!r} -> {o.nominal!r}"
            else:
                assert not (finite_number(v) and int(v) == v), f"nominal {v!r} was rejected"
            t = o._to_bounds()
            assert type(t) is IntegerBounds and t.lower_bound == t.upper_bound == o.nominal
            continue
        attr = rng.choice(['lower_bound', 'upper_bound'] + ['default_units'] * (kind == 'real'))
        v = number(rng) if attr != 'default_units' else \
            rng.choice(['m', 'cm', 'kg', '', None, 1, 'nonsense_unit', 'g/mL', [], 'm +'])
        lo, hi = o.lower_bound, o.upper_bound
        if attempt(o, attr, v):
            if attr != 'default_units':
                assert getattr(o, attr) == float(v) if kind == 'real' else getattr(o, attr) == v, \
                    f"{attr}={v!r} stored {getattr(o, attr)!r}"
        elif attr != 'default_units' and finite_number(v) and abs(v) < 1e300:
            fits = v <= hi if attr == 'lower_bound' else v >= lo
            if kind != 'real':
                fits = fits and int(v) == v
            assert not fits, f"{attr}={v!r} was rejected for [{lo}, {hi}]"
        ok(o)
        if kind == 'uint':
            t = o._to_bounds()
            assert type(t) is IntegerBounds
            assert (t.lower_bound, t.upper_bound) == (o.lower_bound, o.upper_bound)


def sets(rng):
    cls, attr = rng.choice([(CategoricalBounds, 'categories'), (CompositionBounds, 'components')])
    o = cls(['a'])
    for _ in range(rng.randint(1, 4)):
        items = gen.names(rng, 0, 3)
        bad = rng.random() < 0.4
        if bad:
            items.insert(rng.randint(0, len(items)), rng.choice([1, None, b'x', ('a',), 2.5]))
        v = rng.choice([list, tuple, set])(items)
        if rng.random() < 0.15:
            v, bad = rng.choice([('ab', True), (1, True), (None, False)])
            items = [] if v is None else items
        given = v
        if attempt(o, attr, v):
            assert not bad, f"{attr}={v!r} was accepted"
            assert getattr(o, attr) == set(items) and type(getattr(o, attr)) is set
            if isinstance(given, (list, set)):  # the caller's container is not shared
                (given.append if isinstance(given, list) else given.add)(3)
        else:
            assert bad, f"{attr}={v!r} was rejected"
        assert all(isinstance(x, str) for x in getattr(o, attr)), f"{attr} is {getattr(o, attr)}"
        assert o.as_dict()[attr] == sorted(getattr(o, attr))


def categorical(rng):
    o = DiscreteCategorical('a')
    assert o.probabilities == {'a': 1.0}
    for _ in range(rng.randint(1, 4)):
        r = rng.random()
        if r < 0.4:
            v, good = gen.probabilities(rng), True
        elif r < 0.55:
            v, good = gen.probabilities(rng), False
            k = rng.choice(list(v))
            v[k] += rng.choice([1e-3, 0.5, -0.2, float('nan'), float('inf'), 1e-6])
        elif r < 0.65:
            v, good = {1: 1.0}, False
        elif r < 0.75:
            v, good = rng.choice([{}, {'a': 'x'}, [('a', 1.0)], 1.0, {'a': None}]), False
        elif r < 0.85:
            v, good = None, True
        else:
            v, good = gen.word(rng), True
        ok = attempt(o, 'probabilities', v)
        assert ok == good, f"probabilities={v!r} was {'accepted' if ok else 'rejected'}"
        p = o.probabilities
        if p is not None:
            assert all(isinstance(k, str) for k in p) and abs(sum(p.values()) - 1) <= 1e-9
            if ok:
                assert p == (v if isinstance(v, dict) else {v: 1.0})
                if isinstance(v, dict):
                    v['zzz'] = 1
                    assert 'zzz' not in o.probabilities, "the caller's mapping is shared"
            t = o._to_bounds()
            assert type(t) is CategoricalBounds and t.categories == set(p)
    c = NominalCategorical('a')
    for v in (gen.word(rng), rng.choice([1, None, [], b'x'])):
        ok = attempt(c, 'category', v)
        assert ok == (v is None or isinstance(v, str))
        if ok:
            assert c.category == v
        if c.category is not None:
            t = c._to_bounds()
            assert type(t) is CategoricalBounds and t.categories == {c.category}


def formula(rng):
    syms = sorted(ELEMENTS)
    parts = []
    for _ in range(rng.randint(0, 5)):
        s = rng.choice(syms)
        if rng.random() < 0.12:
            s = rng.choice(['Xx', 'Q', 'J', 'Zz', 'Hh', 'Abc', 'Nax', 'A'])
        n = rng.choice(['', '2', '0.5', '10', '.25'])
        parts.append((s, n))
    text, used = '', set()
    depth = 0
    for s, n in parts:
        if rng.random() < 0.2:
            text += '('
            depth += 1
        text += s + n
        used.add(s)
        if depth and rng.random() < 0.5:
            text += ')' + rng.choice(['', '2'])
            depth -= 1
    good = used <= ELEMENTS
    # the tokens of the text itself are what counts
    o = EmpiricalFormula('H2O')
    ok = attempt(o, 'formula', text)
    assert ok == good, f"formula {text!r} was {'accepted' if ok else 'rejected'}"
    if ok:
        assert o.formula == text
    t = o._to_bounds()
    assert type(t) is CompositionBounds
    assert t.components == (used if ok else {'H', 'O'}), f"{o.formula} has bounds {t}"
    for v in (1, [], b'H'):
        assert not attempt(o, 'formula', v)
    assert attempt(o, 'formula', None) and o.formula is None
    assert set(EmpiricalFormula.all_elements()) == ELEMENTS, "the table of elements changed"


def text(rng):
    body = rng.choice(['CH4/h1H4', 'C2H6O/c1-2-3/h3H,2H2,1H3', 'H2O', '1s/x', 'inchi=1s/q', 'S/1S/',
                       gen.word(rng)])
    raw = rng.choice(['', 'InChI=1S/', 'inchi=1s/', 'INCHI=1/', 'InChI=1/', '1S/', '1s/', 'InCHi=1S/'])
    raw += body
    o = InChI(raw)
    n = o.inchi
    assert n.startswith('InChI'), f"{raw!r} normalised to {n!r}"
    p = InChI(n)
    assert p.inchi == n, f"normalisation of {raw!r} is not idempotent: {n!r} -> {p.inchi!r}"
    if raw.startswith('InChI'):
        assert n == raw, f"{raw!r} was changed to {n!r}"
    low = raw.lower()
    rest = raw[5:] if low.startswith('inchi') else raw[3:] if low.startswith('1s/') else raw
    assert n.endswith(rest), f"{raw!r} normalised to {n!r}: more than the prefix changed"
    assert n[:len(n) - len(rest)] in ('InChI', 'InChI=1S/'), f"{raw!r} normalised to {n!r}"
    s = Smiles(raw)
    assert s.smiles == raw
    for o, a in ((p, 'inchi'), (s, 'smiles')):
        for v in (1, [], b'C'):
            assert not attempt(o, a, v)
        t = o._to_bounds()
        assert type(t) is MolecularStructureBounds
        assert attempt(o, a, None) and getattr(o, a) is None


def real_values(rng):
    u = gen.units(rng)
    a, b = number(rng), number(rng)
    k = rng.randrange(3)
    try:
        o = [lambda: NominalReal(a, u), lambda: UniformReal(a, b, u), lambda: NormalReal(a, b, u)][k]()
    except Exception:
        if finite_number(a) and finite_number(b) and abs(a) < 1e300:
            assert k == 1 and a > b, f"{k} {a!r} {b!r} was rejected"
        return
    if k == 1:
        assert not a > b, f"reversed range {a!r}, {b!r} accepted"
    if k == 0:
        assert isinstance(a, (int, float)) and type(o.nominal) is float and \
            (o.nominal == float(a) or a != a)
    assert o.units == parse_units(u)
    good = finite_number(a) and (k != 1 or finite_number(b))
    try:
        t = o._to_bounds()
    except Exception:
        assert not good or abs(a) > 1e300, f"no bounds for {o}"
        return
    real_ok(t)
    assert t.default_units == o.units, "bounds are not in the value's own units"
    assert (t.lower_bound, t.upper_bound) == ((float(a), float(b)) if k == 1 else
                                              (float(a), float(a))), f"{o} has bounds {t}"
    assert t.contains(o)
    for bad in (None, 1, 'nonsense_unit', []):
        assert not attempt(o, 'units', bad), f"units={bad!r} accepted"
    q = NominalComposition({n: 1.0 for n in gen.names(rng, 0, 4)})
    t = q._to_bounds()
    assert type(t) is CompositionBounds and t.components == set(q.quantities)
    for bad in (1, 'ab', ('a', 1)):
        assert not attempt(q, 'quantities', bad)
    assert attempt(q, 'quantities', [['a', 1.0]]) and q.quantities == {'a': 1.0}


CHECKS = dict(ranges=ranges, sets=sets, categorical=categorical, formula=formula, text=text,
              real_values=real_values)
SCALE = dict(ranges=10.0, sets=4.0, categorical=4.0, formula=8.0, text=4.0, real_values=6.0)

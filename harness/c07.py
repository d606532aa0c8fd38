"""C07 concrete contract: containment is set inclusion."""
from fractions import Fraction as F

from gemd.entity.bounds import (CategoricalBounds, CompositionBounds, IntegerBounds,
                                MolecularStructureBounds, RealBounds)
from gemd.entity.value import (DiscreteCategorical, EmpiricalFormula, NominalCategorical,
                               NominalComposition, NominalInteger, NominalReal, NormalReal,
                               UniformInteger, UniformReal, InChI, Smiles)

from . import gen

# independent table: unit -> (family, factor, offset) with base = factor * x + offset
UNITS = {
    '': ('', F(1), F(0)), 'dimensionless': ('', F(1), F(0)), 'percent': ('', F(1, 100), F(0)),
    'g': ('M', F(1), F(0)), 'kg': ('M', F(1000), F(0)), 'mg': ('M', F(1, 1000), F(0)),
    'gram': ('M', F(1), F(0)), 'kilogram': ('M', F(1000), F(0)),
    'milligram': ('M', F(1, 1000), F(0)),
    'pound': ('M', F('453.59237'), F(0)),
    'm': ('L', F(1), F(0)), 'cm': ('L', F(1, 100), F(0)), 'inch': ('L', F('0.0254'), F(0)),
    'meter': ('L', F(1), F(0)), 'centimeter': ('L', F(1, 100), F(0)),
    'K': ('T', F(1), F(0)), 'kelvin': ('T', F(1), F(0)),
    'degC': ('T', F(1), F('273.15')), 'degree_Celsius': ('T', F(1), F('273.15')),
    'degF': ('T', F(5, 9), F('273.15') - F(160, 9)),
    'degree_Fahrenheit': ('T', F(5, 9), F('273.15') - F(160, 9)),
    's': ('t', F(1), F(0)), 'hour': ('t', F(3600), F(0)), 'second': ('t', F(1), F(0)),
    'J/g': ('E', F(1), F(0)), 'kJ/kg': ('E', F(1), F(0)),
    'radian': ('A', F(1), F(0)), 'count': ('N', F(1), F(0)),
}
NAMES = ['', 'percent', 'dimensionless', 'g', 'kg', 'mg', 'pound', 'm', 'cm', 'inch', 'K', 'degC',
         'degF', 's', 'hour', 'J/g', 'kJ/kg', 'radian', 'count']


def family(u):
    return UNITS[u][0]


def base(x, u):
    _, f, o = UNITS[u]
    return f * F(x) + o


def scale(u):
    return UNITS[u][1]


def clear(a, b):
    """Whether rational a and b are far enough apart (or equal) for floats to decide."""
    return abs(a - b) > F(1, 10 ** 7) * (1 + abs(a) + abs(b))


def real(rng, u=None):
    u = rng.choice(NAMES) if u is None else u
    lo, hi = sorted([rng.choice([-2, -1, -0.5, 0, 0.25, 1, 2, 10, 100, rng.uniform(-50, 50)])
                     for _ in range(2)])
    return lo, hi, u


def reals(rng):
    """Real ranges against real ranges and real values, in any units."""
    lo, hi, u = real(rng)
    fam = [n for n in NAMES if family(n) == family(u)]
    v = rng.choice(fam) if rng.random() < 0.8 else rng.choice(NAMES)
    lo2, hi2, _ = real(rng, v)
    if rng.random() < 0.5:  # choose it near the first one, in base units
        a, b = sorted([F(rng.randint(-3, 13), 10), F(rng.randint(-3, 13), 10)])
        if family(v) == family(u):
            x = base(lo, u) + a * (base(hi, u) - base(lo, u))
            y = base(lo, u) + b * (base(hi, u) - base(lo, u))
            f, o = UNITS[v][1], UNITS[v][2]
            lo2, hi2 = float((x - o) / f), float((y - o) / f)
            if lo2 > hi2:
                lo2, hi2 = hi2, lo2
    kind = rng.randrange(4)
    if kind == 0:
        other = RealBounds(lo2, hi2, v)
    elif kind == 1:
        other = UniformReal(lo2, hi2, v)
    elif kind == 2:
        other, hi2 = NominalReal(lo2, v), lo2
    else:
        other, hi2 = NormalReal(lo2, abs(hi2), v), lo2
    b = RealBounds(lo, hi, u)
    got = b.contains(other)
    assert got is True or got is False, f"containment answered {got!r}"
    if family(u) != family(v):
        assert got is False, f"[{lo}, {hi}] {u} contains something in {v}"
        return
    L, H = base(lo, u), base(hi, u)
    L2, H2 = base(lo2, v), base(hi2, v)
    inside = L <= L2 and H2 <= H
    if u == v or (clear(L, L2) and clear(H, H2)):
        assert got is inside, \
            f"[{lo}, {hi}] {u} contains {lo2}..{hi2} {v} answered {got}, set inclusion is {inside}"
    elif not inside and (clear(L, L2) and L2 < L or clear(H, H2) and H2 > H):
        assert got is False, f"[{lo}, {hi}] {u} contains {lo2}..{hi2} {v}"
    # the units either side is written in do not matter
    w = rng.choice(fam)
    f, o = UNITS[w][1], UNITS[w][2]
    b2 = RealBounds(float((L - o) / f), float((H - o) / f), w)
    if clear(L, L2) and clear(H, H2):
        assert b2.contains(other) is got, f"answer depends on writing [{lo},{hi}]{u} in {w}"


def discrete(rng):
    kind = rng.choice(['int', 'cat', 'comp', 'mol'])
    if kind == 'int':
        a, b = sorted([rng.randint(-4, 4), rng.randint(-4, 4)])
        c, d = sorted([rng.randint(-4, 4), rng.randint(-4, 4)])
        k = rng.randrange(3)
        if k == 0:
            o = IntegerBounds(c, d)
        elif k == 1:
            o = UniformInteger(c, d)
        else:
            o, d = NominalInteger(c), c
        x, want = IntegerBounds(a, b), a <= c and d <= b
    elif kind == 'cat':
        s = set(gen.names(rng, 0, 5))
        t = set(rng.sample(sorted(s), rng.randint(0, len(s))))
        if rng.random() < 0.5:
            t |= set(gen.names(rng, 0, 2))
        k = rng.randrange(3)
        if k == 0 or not t:
            o = CategoricalBounds(rng.choice([list, tuple, set])(t))
        elif k == 1:
            o = DiscreteCategorical({n: 1 / len(t) for n in t})
        else:
            t = {sorted(t)[0]}
            o = NominalCategorical(*t)
        x, want = CategoricalBounds(s), t <= s
    elif kind == 'comp':
        s = set(rng.sample(['H', 'O', 'C', 'Na', 'flour', 'Cl'], rng.randint(0, 6)))
        k = rng.randrange(3)
        if k == 0:
            t = set(rng.sample(['H', 'O', 'C', 'Na', 'flour', 'Cl'], rng.randint(0, 4)))
            o = CompositionBounds(t)
        elif k == 1:
            t = set(rng.sample(['H', 'O', 'C', 'Na', 'flour', 'Cl'], rng.randint(0, 4)))
            o = NominalComposition({n: rng.choice([0, 0.5, 1]) for n in t})
        else:
            f, t = rng.choice([('H2O', {'H', 'O'}), ('NaCl', {'Na', 'Cl'}), ('C', {'C'}),
                               ('CHOH', {'C', 'H', 'O'}), ('(NaCl)2', {'Na', 'Cl'})])
            o = EmpiricalFormula(f)
        x, want = CompositionBounds(s), t <= s
    else:
        x = MolecularStructureBounds()
        o = rng.choice([MolecularStructureBounds(), Smiles('CCO'), InChI('InChI=1S/CH4/h1H4')])
        want = True
    got = x.contains(o)
    assert got is want, f"{x} contains {o}: {got}, set inclusion is {want}"


def kinds(rng):
    ks = ['real', 'int', 'cat', 'comp', 'mol']
    a, b = rng.sample(ks, 2)
    x = gen.bounds(rng, a)
    o = gen.bounds(rng, b) if rng.random() < 0.5 else gen.value(rng, b)
    assert x.contains(o) is False, f"{a} bounds contain {o} of kind {b}"
    assert x.contains(None) is False
    for bad in (1, 'x', [], {}, object(), gen.NominalReal, gen.Property('p')):
        try:
            r = x.contains(bad)
        except TypeError:
            continue
        assert False, f"contains({bad!r}) answered {r}"
    y = gen.bounds(rng, a)
    assert x.contains(x) is True, "not reflexive"
    z = gen.bounds(rng, a)
    if x.contains(y) and y.contains(z):
        if a != 'real':
            assert x.contains(z), "not transitive"


CHECKS = dict(reals=reals, discrete=discrete, kinds=kinds)
SCALE = dict(reals=10.0, discrete=8.0, kinds=4.0)

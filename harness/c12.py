"""C12 concrete contract: physical limits of ingredient quantities."""
from gemd.entity.bounds_validation import WarningLevel, validation_level
from gemd.entity.object import IngredientRun, IngredientSpec
from gemd.entity.value import NominalReal, NormalReal, UniformReal

from . import gen
from .c07 import NAMES, base, clear, family
from .c10 import judge
from fractions import Fraction as F

FIELDS = ['mass_fraction', 'volume_fraction', 'number_fraction', 'absolute_quantity']


def quantity(rng):
    """(value, lower, upper, unit)"""
    u = rng.choice(['', 'percent', 'dimensionless', '', 'percent', 'g', 'kg', 'm', 'radian', 'count',
                    'J/g', 's'])
    top = 100 if u == 'percent' else 1
    xs = [0, top, top / 2, -0.25, -1e-6, top * 1.001, top + 1, 0.0, 0.25, 5, 1e-12, -1e-12,
          rng.uniform(-1, 2) * top, 1e30, -1e30]
    k = rng.randrange(3)
    a, b = rng.choice(xs), rng.choice(xs)
    if k == 0:
        return NominalReal(a, u), a, a, u
    if k == 1:
        a, b = min(a, b), max(a, b)
        return UniformReal(a, b, u), a, b, u
    return NormalReal(a, rng.choice([0, 0.1, 3]), u), a, a, u


def history(rng):
    o = IngredientRun() if rng.random() < 0.5 else IngredientSpec("i")
    for _ in range(rng.randint(1, 6)):
        f = rng.choice(FIELDS)
        before = {g: getattr(o, g) for g in FIELDS}
        level = rng.choice(list(WarningLevel))
        if rng.random() < 0.1:
            q, fine = None, True
        else:
            q, a, b, u = quantity(rng)
            if f == 'absolute_quantity':
                fine = a >= 0 and family(u) != ''
            else:
                A, B = base(a, u) if family(u) == '' else F(-1), base(b, u) if family(u) == '' else F(2)
                fine = family(u) == '' and a >= 0 and B <= 1
                if family(u) == '' and B != 1 and not clear(B, F(1)):
                    continue

        def same():
            assert all(getattr(o, g) is before[g] for g in FIELDS), "rejected quantity stored"

        def done():
            assert getattr(o, f) is q, "quantity not stored"
            assert all(getattr(o, g) is before[g] for g in FIELDS if g != f), "another one changed"
        judge(level, fine, lambda: setattr(o, f, q), same, done, f"{f}={q}")
        for bad in rng.sample([1, 0.5, 'x', [], gen.NominalInteger(1), gen.NominalCategorical('a'),
                               gen.RealBounds(0, 1, ''), {}], 3):
            keep = {g: getattr(o, g) for g in FIELDS}
            with validation_level(rng.choice(list(WarningLevel))):
                try:
                    setattr(o, f, bad)
                except TypeError:
                    assert all(getattr(o, g) is keep[g] for g in FIELDS)
                    continue
                assert False, f"{f}={bad!r} accepted"
    # constructor
    f = rng.choice(FIELDS)
    q, a, b, u = quantity(rng)
    if f == 'absolute_quantity':
        fine = a >= 0 and family(u) != ''
    else:
        fine = family(u) == '' and a >= 0 and base(b, u) <= 1
        if family(u) == '' and base(b, u) != 1 and not clear(base(b, u), F(1)):
            return
    box = []
    judge(rng.choice(list(WarningLevel)), fine,
          lambda: box.append(IngredientRun(**{f: q}) if rng.random() < 0.5 else
                             IngredientSpec('i', **{f: q})),
          lambda: None, lambda: None, f"constructor {f}={q}")
    if box:
        assert getattr(box[0], f) is q


CHECKS = dict(history=history)
SCALE = dict(history=10.0)

"""C08 concrete contract: union and update."""
import copy
import itertools

from gemd.entity.bounds import (CategoricalBounds, CompositionBounds, IntegerBounds,
                                MolecularStructureBounds, RealBounds)
from gemd.units import IncompatibleUnitsError

from . import gen
from .c07 import NAMES, UNITS, base, family, real

KINDS = dict(real=RealBounds, int=IntegerBounds, cat=CategoricalBounds, comp=CompositionBounds,
             mol=MolecularStructureBounds)


def state(o):
    return {k: (set(v) if isinstance(v, set) else dict(v) if isinstance(v, dict) else v)
            for k, v in vars(o).items()}


def points(o):
    """Extent of a discrete bounds or value as (kind, set or (lo, hi))."""
    b = o if type(o) in KINDS.values() else o._to_bounds()
    if isinstance(b, IntegerBounds):
        return (b.lower_bound, b.upper_bound)
    if isinstance(b, CategoricalBounds):
        return set(b.categories)
    if isinstance(b, CompositionBounds):
        return set(b.components)
    return None


def operand(rng, kind):
    return gen.bounds(rng, kind) if rng.random() < 0.5 else gen.value(rng, kind)


def discrete(rng):
    kind = rng.choice(['int', 'cat', 'comp', 'mol'])
    x = gen.bounds(rng, kind)
    others = [operand(rng, kind) for _ in range(rng.randint(0, 4))]
    if rng.random() < 0.2:
        others.append(x)
    before = [state(o) for o in [x] + others]
    want = points(x)
    for o in others:
        p = points(o)
        want = (min(want[0], p[0]), max(want[1], p[1])) if kind == 'int' else \
            None if want is None else want | p
    perm = rng.sample(others, len(others))
    for args in (others, perm):
        u = x.union(*args)
        assert type(u) is KINDS[kind]
        assert points(u) == want, f"union of {x} and {args} is {u}"
        assert [state(o) for o in [x] + others] == before, "union changed an operand"
        assert u is not x
        for o in [x] + others:
            for v in vars(u).values():
                if isinstance(v, (set, dict, list)):
                    assert not any(v is y for y in vars(o).values()), "result shares state"
    y = copy.deepcopy(x)
    assert y.update(*others) is None
    assert points(y) == want, f"update of {x} with {others} gives {y}"
    assert y == x.union(*others)
    assert [state(o) for o in [x] + others] == before, "update changed an operand"
    for o in others:
        for v in vars(y).values():
            if isinstance(v, (set, dict, list)):
                assert not any(v is z for z in vars(o).values()), "receiver shares state"
    for b in others:
        assert u.contains(b)
    assert u.contains(x)


def reals(rng):
    lo, hi, u = real(rng)
    fam = [n for n in NAMES if family(n) == family(u)]
    x = RealBounds(lo, hi, u)
    others, ext = [], [(base(lo, u), base(hi, u))]
    for _ in range(rng.randint(0, 4)):
        v = rng.choice(fam)
        lo2, hi2, _ = real(rng, v)
        k = rng.randrange(4)
        if k == 0:
            o = RealBounds(lo2, hi2, v)
        elif k == 1:
            o = gen.UniformReal(lo2, hi2, v)
        elif k == 2:
            o, hi2 = gen.NominalReal(lo2, v), lo2
        else:
            o, hi2 = gen.NormalReal(lo2, 1, v), lo2
        others.append(o)
        ext.append((base(lo2, v), base(hi2, v)))
    L, H = min(a for a, _ in ext), max(b for _, b in ext)
    before = [state(o) for o in [x] + others]
    f, off = UNITS[u][1], UNITS[u][2]
    for args in (others, others[::-1]):
        r = x.union(*args)
        assert type(r) is RealBounds and r is not x
        assert r.default_units == x.default_units, "not in the first one's units"
        for got, want in ((r.lower_bound, (L - off) / f), (r.upper_bound, (H - off) / f)):
            assert abs(got - want) <= 1e-7 * (1 + abs(want) + abs(off / f)), \
                f"union of {x} and {args} is {r}"
        assert r.lower_bound <= x.lower_bound and r.upper_bound >= x.upper_bound
        assert [state(o) for o in [x] + others] == before, "union changed an operand"
    y = RealBounds(lo, hi, u)
    assert y.update(*others) is None
    assert y == x.union(*others), "update is not the union"
    assert [state(o) for o in [x] + others] == before, "update changed an operand"
    # same-unit operands are exact and contained
    for o in others:
        ob = o if isinstance(o, RealBounds) else o._to_bounds()
        if ob.default_units == x.default_units:
            assert r.contains(o), f"{r} does not contain its operand {o}"


def errors(rng):
    kind = rng.choice(list(KINDS))
    x = gen.bounds(rng, kind)
    good = [operand(rng, kind) for _ in range(rng.randint(0, 3))]
    if kind == 'real':
        good = []
        for _ in range(rng.randint(0, 3)):
            good.append(gen.real_value(rng, x.default_units))
    other = rng.choice([k for k in KINDS if k != kind])
    bad = rng.choice([operand(rng, other), operand(rng, other), 1, None, 'x', [x]])
    expected = (TypeError,)
    if kind == 'real' and rng.random() < 0.5:
        u = rng.choice([n for n in NAMES if family(n) != 'T'])
        x = RealBounds(0, 1, u)
        good = [gen.real_value(rng, u) for _ in range(rng.randint(0, 3))]
        v = rng.choice([n for n in NAMES if family(n) != family(u)])
        bad = rng.choice([RealBounds(0.2, 0.4, v), gen.NominalReal(0.5, v)])
        expected = (IncompatibleUnitsError,)
    args = list(good)
    args.insert(rng.randint(0, len(args)), bad)
    ops = [o for o in [x] + args if hasattr(o, '__dict__')]
    before = [state(o) for o in ops]
    for f in (x.union, x.update):
        try:
            r = f(*args)
        except expected:
            pass
        else:
            assert False, f"{f.__name__} of {x} and {args} did not raise: {r}"
        assert [state(o) for o in ops] == before, f"a rejected {f.__name__} changed an operand"


CHECKS = dict(discrete=discrete, reals=reals, errors=errors)
SCALE = dict(discrete=8.0, reals=6.0, errors=8.0)

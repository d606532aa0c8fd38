"""C15 concrete contract: units."""
import os
import tempfile

from gemd.units import (IncompatibleUnitsError, change_definitions_file, convert_units,
                        get_base_units, parse_units)
from gemd.units.impl import DEFAULT_FILE

from .c07 import NAMES, UNITS, base, family

STRINGS = ['', 'm', 'meter', 'cm', 'kg', 'g', 'mL', 'g/mL', 'J/(mol*K)', 'degC', 'kg*m/s^2',
           'm**2', '1/s', 'percent', 'count', 'radian', 'degree', 'MPa', 'W/(m K)', 'm^0.5',
           'kg m^-3', 'Celsius', 'cal', 'amu', 'inch', 'hour', 'mol/L', 'eV', 'dimensionless',
           'cm^-1', 'ohm', 'S/cm', 'GPa', 'ug', 'kilogram / meter ** 3']
NUMBERS = ['2.5', '10', '100', '1e3', '25e-1', '1000', '0.5', '1_000', '2.50']


def canon(rng):
    s = rng.choice(STRINGS)
    if rng.random() < 0.5:
        s = s + ' * ' + rng.choice(STRINGS) if rng.random() < 0.5 else \
            f"({s or 'm'}) / ({rng.choice(STRINGS) or 's'})"
        s = s.strip(' *')
    c = parse_units(s)
    assert isinstance(c, str)
    assert parse_units(c) == c, f"{s!r}: canonical form {c!r} parses to {parse_units(c)!r}"
    assert parse_units(s) == c
    u = parse_units(s, return_unit=True)
    assert parse_units(u) == u and f"{u}" == c, f"{u} {c}"
    assert parse_units(c, return_unit=True) == u, f"{s!r}: {c!r} denotes another unit"
    n, w, top = rng.choice(NUMBERS), rng.choice(['cm', 'mL', 's', 'meter', 'degC', 'mol']), \
        rng.choice(['g', 'mol', 'kg', '1', 'ug'])
    t = rng.choice([f"{top} / {n} {w}", f"{top} / ({n} {w})", f"{top} / {n}{w}"
                    if 'e' not in n else f"{top} / {n} {w}"])
    c = parse_units(t)
    assert parse_units(c) == c, f"{t!r}: canonical form {c!r} parses to {parse_units(c)!r}"
    assert abs(convert_units(1.0, t, c) - 1) < 1e-9, f"{t!r} is not {c!r}"
    if w != 'degC':
        k = float(n.replace('_', ''))
        plain = f"{top} / {w}"
        got = convert_units(3.0, t, plain)
        assert abs(got * k / 3.0 - 1) < 1e-9, f"3 {t!r} is {got} {plain!r}"
    assert parse_units(None) is None
    for bad in ('bogus_unit', 3, [], 'lb : in^3', '3 rpm', '16', '/gram'):
        try:
            r = parse_units(bad) if not isinstance(bad, list) else parse_units(tuple(bad))
        except Exception:
            continue
        assert False, f"{bad!r} parsed to {r!r}"


def convert(rng):
    u = rng.choice(NAMES)
    v = rng.choice(NAMES)
    x = rng.choice([0, 1, 1.0, -1, 0.1, 273.15, rng.uniform(-100, 100), rng.uniform(-1e6, 1e6)])
    assert convert_units(x, u, u) == x, "conversion to the same unit changed the value"
    if family(u) != family(v):
        for a, b in ((u, v), (v, u)):
            try:
                r = convert_units(x, a, b)
            except IncompatibleUnitsError:
                continue
            assert False, f"{x} {a!r} converted to {r} {b!r}"
        return
    _, f, o = UNITS[v]
    want = (base(x, u) - o) / f
    got = convert_units(x, u, v)
    tol = 1e-9 * (1 + abs(want) + abs(o / f))
    assert abs(got - want) <= tol, f"{x} {u} is {float(want)} {v}, not {got}"
    back = convert_units(got, v, u)
    assert abs(back - x) <= 1e-9 * (1 + abs(x) + abs(UNITS[u][2] / UNITS[u][1])), \
        f"{x} {u} -> {got} {v} -> {back}"
    y = x + rng.choice([1e-3, 1, 50])
    assert convert_units(y, u, v) > got, f"conversion {u} to {v} is not increasing"
    bu, ratio, off = get_base_units(u)
    assert abs(convert_units(x, u, f"{bu}") - (ratio * x + off)) <= 1e-6 * (1 + abs(ratio * x) + abs(off))
    for a, b in (('', 'radian'), ('', 'count'), ('radian', 'count'), ('degree', ''), ('m', 's'),
                 ('1/s', 'radian/s'), ('mol', ''), ('K', 'J')):
        for p, q in ((a, b), (b, a)):
            try:
                r = convert_units(1.5, p, q)
            except IncompatibleUnitsError:
                continue
            assert False, f"1.5 {p!r} converted to {r} {q!r}"


def definitions(rng):
    """Changing definitions: caches, working directory, failures."""
    here = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        text = DEFAULT_FILE.read_text()
        consts = DEFAULT_FILE.parent / 'constants_en.txt'
        k = rng.choice([2.0, 3.0, 7.0])
        files = {}
        sub = os.path.join(d, 'sub')
        os.mkdir(sub)
        for name, where, extra in (('a.txt', d, f"\nveriflen = {k} * meter\n"),
                                   ('b.txt', sub, f"\nveriflen = {k + 1} * meter\nverifonly = 5 * gram\n")):
            with open(os.path.join(where, name), 'w') as f:
                f.write(text + extra)
            with open(os.path.join(where, 'constants_en.txt'), 'w') as f:
                f.write(consts.read_text())
            files[name] = os.path.join(where, name)
        bad = os.path.join(d, 'bad.txt')
        with open(bad, 'w') as f:
            f.write('@import nothing_here.txt\n')
        state = [None]

        def probe():
            assert os.getcwd() == os.path.realpath(d), "the working directory changed"
            if state[0] is None:
                for fn in (lambda: parse_units('veriflen'),
                           lambda: convert_units(1.0, 'veriflen', 'm'),
                           lambda: get_base_units('veriflen')):
                    try:
                        r = fn()
                    except Exception:
                        continue
                    assert False, f"a removed unit is still known: {r!r}"
            else:
                want = k if state[0] == 'a.txt' else k + 1
                assert parse_units('veriflen') == 'veriflen'
                got = convert_units(1.0, 'veriflen', 'm')
                assert got == want, f"veriflen is {want} m by the current definitions, got {got}"
                assert get_base_units('veriflen')[1] == want
                assert abs(convert_units(want, 'm', 'veriflen') - 1) < 1e-12
                try:
                    known = parse_units('verifonly') == 'verifonly'
                except Exception:
                    known = False
                assert known == (state[0] == 'b.txt'), "a unit of other definitions is visible"
        os.chdir(d)
        try:
            probe()
            for _ in range(rng.randint(2, 4)):
                what = rng.choice(['a.txt', 'b.txt', None, 'missing', 'bad', 'rel'])
                if what == 'missing':
                    ok = False
                    arg = os.path.join(d, 'no_such_file.txt')
                elif what == 'bad':
                    ok, arg = False, bad
                elif what == 'rel':
                    ok, arg, what = True, rng.choice(['a.txt', './a.txt']), 'a.txt'
                else:
                    ok, arg = True, files.get(what)
                try:
                    change_definitions_file(arg) if arg or rng.random() < 0.5 else \
                        change_definitions_file()
                    done = True
                except Exception:
                    done = False
                assert done == ok, f"changing to {what}: {'accepted' if done else 'rejected'}"
                if ok:
                    state[0] = what
                probe()
                probe()
        finally:
            os.chdir(here)
            change_definitions_file()


CHECKS = dict(canon=canon, convert=convert, definitions=definitions)
SCALE = dict(canon=3.0, convert=5.0, definitions=0.04)

"""C16 concrete contract: enumerations."""
from gemd.entity.attribute import Property
from gemd.entity.object import MaterialRun
from gemd.enumeration import Origin, SampleType
from gemd.enumeration.base_enumeration import BaseEnumeration

WANT = {Origin: ['measured', 'predicted', 'summary', 'specified', 'computed', 'unknown'],
        SampleType: ['experimental', 'production', 'virtual', 'unknown']}
PAD = ['', ' ', '\t', '  \n']


def spell(rng, s):
    s = ''.join(rng.choice([c.upper(), c.lower()]) for c in s)
    return rng.choice(PAD) + s + rng.choice(PAD)


def junk(rng, names):
    base = rng.choice(names)
    j = rng.choice([base + 'x', base[:-1], '', ' ', 'none', base + ' ' + base, 'm easured', '0'])
    return None if j.strip().lower() in [n.lower() for n in names] else j


def builtin(rng):
    cls = rng.choice([Origin, SampleType])
    names = WANT[cls]
    assert [m.value for m in cls] == names, f"{cls.__name__} has members {[m.value for m in cls]}"
    n = rng.choice(names)
    s = spell(rng, n)
    m = next(x for x in cls if x.value == n)
    assert cls.from_str(s) is m and cls.from_str(s, exception=True) is m and cls(s) is m, \
        f"{s!r} does not resolve to {m!r}"
    assert str(m) == n and cls.from_str(str(m)) is m and cls(m) is m and cls.from_str(m) is m
    assert m == n and m.value == n
    j = junk(rng, names)
    attr = (Property('p'), 'origin') if cls is Origin else (MaterialRun('m'), 'sample_type')
    setattr(*attr, s)
    assert getattr(*attr) is m, f"stored {getattr(*attr)!r}"
    setattr(*attr, m)
    assert getattr(*attr) is m
    for bad in [None] * (cls is Origin) + [j] * (j is not None) + [3, [], 2.5]:
        try:
            setattr(*attr, bad)
        except Exception:
            assert getattr(*attr) is m, f"a rejected assignment of {bad!r} changed the field"
        else:
            assert False, f"{attr[1]}={bad!r} stored {getattr(*attr)!r}"
    if j is not None:
        assert cls.from_str(j) is None, f"{j!r} resolves to {cls.from_str(j)!r}"
        for f in (lambda: cls.from_str(j, exception=True), lambda: cls(j)):
            try:
                f()
            except ValueError:
                continue
            assert False, f"{j!r} accepted"
    try:
        cls.from_str(None, exception=True)
        assert False, "None accepted"
    except ValueError:
        pass
    assert cls.from_str(None) is None
    o = Property('p', origin=s) if cls is Origin else MaterialRun('m', sample_type=s)
    assert getattr(o, attr[1]) is m


def custom(rng):
    """Enumerations with synonyms, including clashing ones."""
    words = ['one', 'Two', 'THREE', 'a b', 'x', ' y ', '1', 'é']
    members, used, clash = [], {}, False
    for i in range(rng.randint(1, 4)):
        texts = [rng.choice(words) for _ in range(rng.randint(1, 3))]
        if rng.random() < 0.7:
            texts = [t + str(i) for t in texts]
        keys = {t.lower().strip() for t in texts}
        clash = clash or any(k in used for k in keys)
        used.update({k: i for k in keys})
        members.append((f"M{i}", texts[0] if len(texts) == 1 else tuple(texts)))
    ns = BaseEnumeration.__class__.__prepare__('E', (BaseEnumeration,))
    for n, v in members:
        ns[n] = v
    try:
        E = type(BaseEnumeration)('E', (BaseEnumeration,), ns)
    except ValueError:
        assert clash, f"{members} was rejected"
        return
    assert not clash, f"clashing names accepted: {members}"
    assert len(E) == len(members)
    ms = list(E)
    for i, (n, v) in enumerate(members):
        for t in ([v] if isinstance(v, str) else v):
            s = spell(rng, t)
            if s.lower().strip() != t.lower().strip():
                s = t
            assert E.from_str(s) is ms[i] and E(s) is ms[i], f"{s!r} -> {E.from_str(s)!r}"
        first = v if isinstance(v, str) else v[0]
        assert ms[i].value == first and str(ms[i]) == first and E.from_str(str(ms[i])) is ms[i]
    for bad in ('zzz', 'M0', 'one9', ''):
        if bad.lower() not in used:
            assert E.from_str(bad) is None


CHECKS = dict(builtin=builtin, custom=custom)
SCALE = dict(builtin=4.0, custom=4.0)

"""C06 concrete contract: case-insensitive identifier maps."""
from gemd.entity.case_insensitive_dict import CaseInsensitiveDict
from gemd.entity.object import MaterialRun

STEMS = ['id', 'key', 'é', 'mixedcase', 'x y', '', 'self', 'mapping', 'seq', 'default', 'key2',
         'ß', 'Σ'.lower()]


def spell(rng, stem):
    r = rng.random()
    if r < 0.3:
        return stem
    if r < 0.5:
        u = stem.upper()
        return u if u.lower() == stem else stem
    t = ''.join(c.upper() if rng.random() < 0.5 else c for c in stem)
    return t if t.lower() == stem else stem


class Model:
    """Ordered map from folded key to (spelling, value)."""

    def __init__(self):
        self.d = {}

    def put(self, pairs):
        d = dict(self.d)
        for k, v in pairs:
            f = k.lower()
            if f in d and d[f][0] != k:
                return False
            d[f] = (k, v)
        self.d = d
        return True


def agree(m, model, what):
    keys = [s for s, _ in model.d.values()]
    assert sorted(m) == sorted(keys), f"{what}: keys {list(m)!r}, expected {keys!r}"
    assert len(m) == len(keys), f"{what}: length"
    assert sorted(m.keys()) == sorted(keys)
    assert dict(m.items()) == {s: v for s, v in model.d.values()}, f"{what}: items"
    for stem in STEMS:
        for s in {stem, stem.upper() if stem.upper().lower() == stem else stem, stem.title()
                  if stem.title().lower() == stem else stem}:
            f = s.lower()
            assert (s in m) == (f in model.d), f"{what}: membership of {s!r}"
            if f in model.d:
                assert m[s] == model.d[f][1] and m.get(s) == model.d[f][1], \
                    f"{what}: lookup of {s!r}"
            else:
                assert m.get(s, 'dflt') == 'dflt' and m.get(s) is None
                try:
                    m[s]
                    assert False, f"{what}: missing {s!r} did not raise"
                except KeyError:
                    pass


def history(rng):
    model = Model()
    init = {spell(rng, rng.choice(STEMS)): rng.randint(0, 9) for _ in range(rng.randint(0, 4))}
    pairs = list(init.items())
    form = rng.randrange(4)
    fine = model.put(pairs)
    try:
        if form == 0:
            m = CaseInsensitiveDict(init)
        elif form == 1:
            m = CaseInsensitiveDict(list(pairs))
        elif form == 2:
            m = MaterialRun('m', uids=init).uids
        else:
            m = CaseInsensitiveDict()
            m.update(init)
        assert fine, f"two spellings accepted: {init!r}"
    except ValueError:
        assert not fine, f"rejected {init!r}"
        return
    agree(m, model, 'construction')
    for _ in range(rng.randint(1, 15)):
        op = rng.choice(['set', 'set', 'del', 'pop', 'popd', 'setdefault', 'update', 'update_kw',
                         'ior', 'clear', 'copy', 'popitem', 'add_pairs', 'get'])
        k = spell(rng, rng.choice(STEMS))
        v = rng.randint(0, 99)
        f = k.lower()
        before = Model()
        before.d = dict(model.d)
        try:
            if op == 'set':
                want = model.put([(k, v)])
                m[k] = v
                assert want, f"second spelling {k!r} stored"
            elif op == 'del':
                want = f in model.d
                model.d.pop(f, None)
                try:
                    del m[k]
                    assert want, f"deleting the missing {k!r} did not raise"
                except KeyError:
                    assert not want, f"deleting {k!r} raised"
            elif op == 'pop':
                want = model.d.pop(f, None)
                try:
                    got = m.pop(k)
                    assert want is not None and got == want[1], f"pop {k!r} gave {got!r}"
                except KeyError:
                    assert want is None, f"pop {k!r} raised"
            elif op == 'popd':
                want = model.d.pop(f, (None, 'd'))
                got = m.pop(k, 'd')
                assert got == want[1], f"pop {k!r} with default gave {got!r}"
            elif op == 'setdefault':
                if f in model.d:
                    want = model.d[f][1]
                else:
                    want = v
                    model.put([(k, v)])
                got = m.setdefault(k, v)
                assert got == want, f"setdefault {k!r} gave {got!r}, not {want!r}"
            elif op in ('update', 'ior', 'add_pairs'):
                d = {spell(rng, rng.choice(STEMS)): rng.randint(0, 9)
                     for _ in range(rng.randint(0, 3))}
                want = model.put(list(d.items()))
                if op == 'ior':
                    m |= d
                elif op == 'update':
                    m.update(d)
                else:
                    m.update(list(d.items()))
                assert want, f"update with {d!r} stored two spellings"
            elif op == 'update_kw':
                kk = rng.choice(['id', 'ID', 'Key', 'key'])
                want = model.put([(kk, v)])
                m.update(**{kk: v})
                assert want
            elif op == 'clear':
                model.d = {}
                m.clear()
            elif op == 'copy':
                c = m.copy()
                assert type(c) is CaseInsensitiveDict and c is not m
                agree(c, model, 'copy')
                c['fresh' + str(v)] = 1
            elif op == 'popitem':
                try:
                    kk, vv = m.popitem()
                    assert kk.lower() in model.d and model.d[kk.lower()] == (kk, vv)
                    model.d.pop(kk.lower())
                except KeyError:
                    assert not model.d, "popitem raised on a non-empty map"
        except ValueError:
            model.d = before.d
            # which operations were to be refused?
            ok = Model()
            ok.d = dict(before.d)
            if op == 'set':
                assert not ok.put([(k, v)]), f"{k!r} rejected"
            elif op in ('update', 'ior', 'add_pairs'):
                assert not ok.put(list(d.items())), f"{d!r} rejected"
            elif op == 'update_kw':
                assert not ok.put([(kk, v)])
            else:
                raise AssertionError(f"{op} raised ValueError")
        agree(m, model, op)


def entity(rng):
    o = MaterialRun('m')
    a, b = spell(rng, 'scope'), spell(rng, 'scope')
    o.add_uid(a, '1')
    try:
        o.add_uid(b, '2')
        assert a == b, "two spellings of a scope stored"
        assert o.uids[b] == '2'
    except ValueError:
        assert a != b and dict(o.uids) == {a: '1'}
    o.uids = {'x': 'y'}
    assert o.uids['X'] == 'y'
    try:
        o.uids = {'x': '1', 'X': '2'}
        assert False, "two spellings stored through the setter"
    except ValueError:
        assert dict(o.uids) == {'x': 'y'}, "a rejected assignment changed the identifiers"
    src = {'k': 'v'}
    o.uids = src
    src['K2'] = 'w'
    assert 'K2' not in o.uids


CHECKS = dict(history=history, entity=entity)
SCALE = dict(history=6.0)

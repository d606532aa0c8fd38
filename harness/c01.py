"""C01 concrete contract: JSON round trip."""
import copy
import json

import gemd.json as gj
from gemd.entity.base_entity import BaseEntity
from gemd.entity.dict_serializable import DictSerializable
from gemd.entity.link_by_uid import LinkByUID

from . import gen

BACK = ('_ingredients', '_measurements')


def compare(a, b):
    memo = ({}, {})
    msg = gen.deep_same(a, b, memo, ignore=BACK)
    assert msg is None, msg
    for o in gen.reachable(a, BaseEntity):
        twin = memo[0].get(id(o))
        if twin is None:
            continue
        for attr in ('ingredients', 'measurements'):
            if hasattr(o, attr):
                x, y = getattr(o, attr), getattr(twin, attr)
                assert len(x) == len(y), f"{type(o).__name__}.{attr}: {len(x)} became {len(y)}"
                want = [memo[0].get(id(e)) for e in x if not isinstance(e, LinkByUID)]
                for w in want:
                    if w is not None:
                        assert any(w is e for e in y), f"back link lost in {attr}"


def plain_nest(rng, items, depth=3):
    k = rng.randrange(6)
    if depth <= 0 or k == 0:
        return rng.choice(items) if items and rng.random() < 0.8 else gen.scalar(rng)
    if k in (1, 2, 3):
        return [plain_nest(rng, items, depth - 1) for _ in range(rng.randint(0, 4))]
    return {f"k{i}": plain_nest(rng, items, depth - 1) for i in range(rng.randint(0, 3))}


def graph(rng):
    w = gen.World(rng, size=rng.randint(1, 25))
    items = w.all()
    root = rng.choice(items) if rng.random() < 0.3 else plain_nest(rng, items)
    before = {id(o): dict(o.uids) for o in items}
    snap = state(items)
    text = gj.dumps(root)
    # writing changes nothing but identifiers of objects that had none
    for o in items:
        was = before[id(o)]
        now = dict(o.uids)
        assert now == was or (not was and len(now) == 1), f"uids {was} became {now}"
    assert state(items) == snap, "writing changed the original"
    for o in gen.reachable(root, BaseEntity):
        assert o.uids, "a written object has no identifier"
    back = gj.loads(text)
    compare(root, back)
    again = gj.loads(gj.dumps(back))
    compare(back, again)
    assert back == root or _nan(root), "the structure read back is not equal to the original"


def _nan(x):
    return False


def state(items):
    s, keep = gen.snapshot(items)
    # forget the identifier maps (checked separately)
    uids = {id(o.uids) for o in items} | {id(getattr(o.uids, 'lowercase_dict', None))
                                          for o in items}
    return [x for x in s if x[0] not in uids and x[0] != id(items)]


def single(rng):
    """Objects of every non-entity class keep every field, exactly."""
    makers = [lambda: gen.value(rng), lambda: gen.bounds(rng),
              lambda: rng.choice(gen.World(rng, 6).attrs(rng.choice(list(gen.ATTR)), 3) or [None]),
              lambda: LinkByUID(gen.scope(rng), gen.word(rng)),
              lambda: (gen.file_links(rng) or [None])[0],
              lambda: gen.World(rng, 1).source()]
    root = [rng.choice(makers)() for _ in range(rng.randint(1, 6))]
    compare(root, gj.loads(gj.dumps(root)))
    for o in root:
        if isinstance(o, DictSerializable):
            c = gj.GEMDJson().copy(o)
            compare(o, c)
            assert c is not o


def scalars(rng):
    def deep(d):
        k = rng.randrange(5)
        if d == 0 or k == 0:
            return gen.scalar(rng)
        if k < 3:
            return [deep(d - 1) for _ in range(rng.randint(0, 5))]
        return {gen.word(rng) + str(i): deep(d - 1) for i in range(rng.randint(0, 4))}
    x = [deep(3)]
    y = gj.loads(gj.dumps(x))
    msg = gen.deep_same(x, y)
    assert msg is None, msg


def sharing(rng):
    """One object referenced from many places is read back as one object."""
    w = gen.World(rng, size=10)
    items = w.all()
    o = rng.choice(items)
    root = {'a': o, 'b': [o, {'c': o}], 'd': [[o]]}
    back = gj.loads(gj.dumps(root))
    first = back['a']
    assert back['b'][0] is first and back['b'][1]['c'] is first and back['d'][0][0] is first, \
        "shared object was duplicated"
    compare(root, back)


def equal_twins(rng):
    """Distinct objects that look alike stay distinct."""
    w = gen.World(rng, size=8, uid_p=0.0)
    items = w.all()
    o = rng.choice(items)
    twin = copy.deepcopy(o)
    for e in gen.reachable(twin, BaseEntity):
        e.uids = None
    if o.uids:
        return
    root = [o, twin]
    back = gj.loads(gj.dumps(root))
    assert back[0] is not back[1], "two objects became one"
    compare(root, back)


def raw(rng):
    """raw_dumps / thin_dumps keep the object itself intact."""
    w = gen.World(rng, size=10)
    o = rng.choice(w.all())
    thin = json.loads(gj.GEMDJson().thin_dumps(o))
    assert thin['type'] == o.typ, "type name missing from the thin form"
    for e in gen.reachable(thin, dict):
        if 'type' in e and e['type'] != 'link_by_uid' and e is not thin:
            assert 'uids' not in e, "an object was written inside another one"
    v = [gen.value(rng), gen.bounds(rng)]
    compare(v, gj.GEMDJson().raw_loads(gj.GEMDJson().raw_dumps(v))
            if hasattr(gj.GEMDJson(), 'raw_loads') else gj.loads(gj.dumps(v)))


def scopes(rng):
    """A chosen scope for new identifiers is used and nothing else changes."""
    s = rng.choice(['foo', 'Bar', 'id x', 'été'])
    w = gen.World(rng, size=10)
    items = w.all()
    had = {id(o): dict(o.uids) for o in items}
    g = gj.GEMDJson(scope=s)
    back = g.loads(g.dumps(items))
    for o in items:
        if not had[id(o)]:
            assert list(o.uids) == [s], f"new identifier under {list(o.uids)} not {s}"
        else:
            assert dict(o.uids) == had[id(o)]
    compare(items, back)


CHECKS = dict(graph=graph, single=single, scalars=scalars, sharing=sharing,
              equal_twins=equal_twins, raw=raw, scopes=scopes)
SCALE = dict(graph=2.0, single=2.0)

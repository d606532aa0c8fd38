"""C03 concrete contract: traversal."""
from gemd.entity.base_entity import BaseEntity
from gemd.entity.link_by_uid import LinkByUID
from gemd.util import make_index, recursive_flatmap, recursive_foreach, set_uuids

from . import gen


def containers(rng, items, depth=3):
    """Any nesting, including unhashable and shared containers, entities as keys, sets."""
    k = rng.randrange(9)
    if depth == 0 or k == 0:
        return rng.choice(items) if rng.random() < 0.8 else gen.scalar(rng)
    sub = [containers(rng, items, depth - 1) for _ in range(rng.randint(0, 3))]
    if k in (1, 2):
        return sub
    if k in (3, 4):
        return tuple(sub)
    if k == 5:
        return {rng.choice(items) for _ in range(rng.randint(0, 3))}
    if k == 6:
        return {rng.choice([rng.choice(items), (rng.choice(items), len(sub)), frozenset(
            rng.choice(items) for _ in range(2)), ((rng.choice(items),), 'k')]): x for x in sub}
    if k == 7:
        s = containers(rng, items, depth - 1)
        return [s, s, (s, [s])]
    return {f"k{i}": x for i, x in enumerate(sub)}


def same_set(calls, want, what):
    ids = [id(x) for x in calls]
    assert len(ids) == len(set(ids)), f"{what} was called twice for the same object"
    for x in calls:
        assert isinstance(x, BaseEntity), f"{what} was called for a {type(x).__name__}"
    assert set(ids) == {id(x) for x in want}, \
        f"{what} reached {len(set(ids))} of {len(want)} objects"


def world(rng):
    w = gen.World(rng, size=rng.randint(1, 25))
    items = w.all()
    return items, (rng.choice(items) if rng.random() < 0.3 else containers(rng, items))


def foreach(rng):
    items, root = world(rng)
    want = gen.reachable(root, BaseEntity)
    for first in (False, True):
        calls = []
        recursive_foreach(root, calls.append, apply_first=first)
        same_set(calls, want, 'recursive_foreach')


def skip_of(o):
    d = set()
    for c in type(o).__mro__:
        d |= set(getattr(c, 'skip', ()) or ())
    return d


def reach_writable(root):
    """Reachable without following the read-only back links."""
    from gemd.entity.dict_serializable import DictSerializable
    back = {'_ingredients', '_output_material', '_measurements'}
    seen, out, todo, keep = set(), [], [root], []
    while todo:
        x = todo.pop()
        if id(x) in seen or x is None or isinstance(x, (str, bytes, int, float, bool)):
            continue
        seen.add(id(x))
        keep.append(x)
        if isinstance(x, BaseEntity):
            out.append(x)
        if isinstance(x, DictSerializable):
            todo.extend(v for k, v in vars(x).items() if k not in back)
        elif isinstance(x, dict):
            todo.extend(x.keys())
            todo.extend(x.values())
        elif isinstance(x, (list, tuple, set, frozenset)):
            todo.extend(x)
    return out


def flatmap(rng):
    items, root = world(rng)
    calls = []

    def f(x):
        calls.append(x)
        return [(id(x), 1), (id(x), 2)]
    res = recursive_flatmap(root, f, unidirectional=False)
    want = gen.reachable(root, BaseEntity)
    same_set(calls, want, 'recursive_flatmap')
    assert sorted(res) == sorted((id(x), i) for x in want for i in (1, 2)), \
        "results lost or repeated"
    calls.clear()
    recursive_flatmap(root, f)
    same_set(calls, reach_writable(root), 'recursive_flatmap (one direction)')


def uuids(rng):
    items, root = world(rng)
    before = {id(o): dict(o.uids) for o in items}
    want = {id(o) for o in gen.reachable(root, BaseEntity)}
    s = rng.choice(['auto', 'X', 'été'])
    set_uuids(root, s)
    fresh = []
    for o in items:
        was, now = before[id(o)], dict(o.uids)
        if was or id(o) not in want:
            assert now == was, f"identifiers {was} became {now}"
        else:
            assert list(now) == [s] and isinstance(now[s], str) and now[s], \
                f"no identifier assigned: {now}"
            fresh.append(now[s])
    assert len(set(fresh)) == len(fresh), "the same identifier was assigned twice"


def index(rng):
    items, root = world(rng)
    set_uuids(root, 'auto')
    idx = make_index(root)
    want = reach_writable(root)
    expect = {(s, o.uids[s]): o for o in want for s in o.uids}
    for k, o in expect.items():
        assert idx.get(LinkByUID(*k)) is o, "index misses an identifier"
        assert idx.get(k) is o or True
    assert len(idx) == len(expect), "index holds something else"


def deep(rng):
    """Long chains and deep nesting."""
    x = gen.MaterialRun('leaf')
    n = rng.choice([1, 5, 300, 1500])
    for _ in range(n):
        x = [x] if rng.random() < 0.5 else {'a': x}
    calls = []
    recursive_foreach(x, calls.append)
    assert len(calls) == 1
    assert len(recursive_flatmap(x, lambda o: [o])) == 1


CHECKS = dict(foreach=foreach, flatmap=flatmap, uuids=uuids, index=index, deep=deep)
SCALE = dict(deep=0.2)

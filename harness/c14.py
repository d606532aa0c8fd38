"""C14 concrete contract: substitution."""
from gemd.entity.base_entity import BaseEntity
from gemd.entity.dict_serializable import DictSerializable
from gemd.entity.link_by_uid import LinkByUID
from gemd.util import make_index, set_uuids, substitute_links, substitute_objects

from . import gen


def build(rng, items, depth=3):
    k = rng.randrange(8)
    if depth == 0 or k == 0:
        r = rng.random()
        if r < 0.6:
            return rng.choice(items)
        if r < 0.7:
            return LinkByUID('nowhere', gen.word(rng))
        return gen.scalar(rng)
    sub = [build(rng, items, depth - 1) for _ in range(rng.randint(0, 3))]
    if k in (1, 2):
        return sub
    if k == 3:
        return tuple(sub)
    if k == 4:
        return {rng.choice([rng.choice(items), rng.choice(items), (rng.choice(items), len(sub)),
                            ((rng.choice(items),), 'k')]): x for x in sub}
    if k == 5:
        s = build(rng, items, depth - 1)
        return [s, s]
    if k == 6:
        return [gen.Property('p', value=gen.value(rng)), sub]
    return {f"k{i}": x for i, x in enumerate(sub)}


def expect(x, f, top=True, root=None):
    """The structure with f applied at every entity/link position (specification)."""
    if isinstance(x, (BaseEntity, LinkByUID)):
        return f(x)
    if isinstance(x, list):
        return [expect(y, f, False) for y in x]
    if isinstance(x, tuple):
        return tuple(expect(y, f, False) for y in x)
    if isinstance(x, dict):
        return {expect(k, f, False): expect(v, f, False) for k, v in x.items()}
    return x


def same(a, b, path='root'):
    assert type(a) is type(b), f"{path}: {type(a).__name__} instead of {type(b).__name__}"
    if isinstance(a, LinkByUID):
        assert (a.scope, a.id) == (b.scope, b.id), f"{path}: other link"
    elif isinstance(a, BaseEntity):
        assert a is b or a == b, f"{path}: other object"
    elif isinstance(a, dict):
        assert len(a) == len(b), f"{path}: {len(a)} entries instead of {len(b)}"
        for (k, v), (k2, v2) in zip(a.items(), b.items()):
            if k != k2 or type(k) is not type(k2):
                break
            same(v, v2, f"{path}[{k!r:.40}]")
        else:
            return
        for k, v in b.items():
            hit = [q for q in a if type(q) is type(k) and (q is k or q == k)]
            assert hit, f"{path}: key {k!r:.60} missing"
    elif isinstance(a, (list, tuple)):
        assert len(a) == len(b), f"{path}: {len(a)} elements instead of {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            same(x, y, f"{path}[{i}]")
    else:
        assert a == b, f"{path}: {a!r} instead of {b!r}"


def snap(x):
    return gen.snapshot(x)[0]


def containers(rng):
    w = gen.World(rng, size=rng.randint(2, 12))
    items = w.all()
    set_uuids(items, 'auto')
    root = [build(rng, items)]
    before, _keep = gen.snapshot([root, items])
    idx = make_index(items)

    def link(o):
        return o.to_link() if isinstance(o, BaseEntity) else o
    want = expect(root, link)
    got = substitute_links(root)
    assert snap_eq([root, items], before), "the copying form modified its input"
    check_links(got, want)
    back = substitute_objects(got, idx)
    same_structure(back, root)
    # in place: the very same objects come back
    shape = copy_shape(root)
    r1 = substitute_links(root, inplace=True)
    check_links(r1, want)
    r2 = substitute_objects(r1, idx, inplace=True)
    same_structure(r2, shape, identity=True)


def snap_eq(x, before):
    now, _ = gen.snapshot(x)
    a = {k: v for k, v in before}
    b = {k: v for k, v in now}
    root = id(x)
    # the two outer lists are rebuilt by the caller
    return [v for k, v in a.items() if k in b and b[k] != v] == [] and \
        all(k in b or True for k in a)


def copy_shape(x):
    if isinstance(x, list):
        return [copy_shape(y) for y in x]
    if isinstance(x, tuple):
        return tuple(copy_shape(y) for y in x)
    if isinstance(x, dict):
        return {copy_shape(k): copy_shape(v) for k, v in x.items()}
    return x


def check_links(got, want, path='root'):
    if isinstance(want, LinkByUID):
        assert isinstance(got, LinkByUID), f"{path}: {type(got).__name__} was not replaced"
        assert (got.scope, got.id) == (want.scope, want.id), f"{path}: wrong link"
    elif isinstance(want, (list, tuple)):
        assert type(got) is type(want), f"{path}: {type(got).__name__}"
        assert len(got) == len(want), f"{path}: length {len(got)} instead of {len(want)}"
        for i, (g, w) in enumerate(zip(got, want)):
            check_links(g, w, f"{path}[{i}]")
    elif isinstance(want, dict):
        assert isinstance(got, dict), path
        assert len(got) == len(want), f"{path}: {len(got)} entries instead of {len(want)}"
        for k, v in want.items():
            hit = [q for q in got if is_link_of(q, k)]
            assert len(hit) == 1, f"{path}: key {k!r:.60} missing"
            check_links(got[hit[0]], v, f"{path}[{k!r:.30}]")
    elif isinstance(want, DictSerializable):
        assert type(got) is type(want) and got == want, f"{path}: changed"
    else:
        assert type(got) is type(want) and got == want, f"{path}: {got!r} instead of {want!r}"


def is_link_of(got, want):
    try:
        check_links(got, want, 'key')
        return True
    except AssertionError:
        return False


def same_structure(got, want, path='root', identity=False):
    if isinstance(want, BaseEntity):
        assert isinstance(got, BaseEntity), f"{path}: still a {type(got).__name__}"
        if identity:
            assert got is want, f"{path}: another object"
        else:
            # back links of a copy only cover the copied part of the graph, so == is not used
            assert type(got) is type(want) and dict(got.uids) == dict(want.uids), \
                f"{path}: another object"
            dg, dw = got.as_dict(), want.as_dict()
            for k in dw:
                equal_field(dg[k], dw[k], f"{path}.{k}")
    elif isinstance(want, (list, tuple)):
        assert type(got) is type(want) and len(got) == len(want), path
        for i, (g, w) in enumerate(zip(got, want)):
            same_structure(g, w, f"{path}[{i}]", identity)
    elif isinstance(want, dict):
        assert isinstance(got, dict) and len(got) == len(want), path
        for k, v in want.items():
            if isinstance(k, BaseEntity):
                hit = [q for q in got if (q is k if identity else type(q) is type(k)
                                          and dict(q.uids) == dict(k.uids))]
            else:
                hit = [q for q in got if holds(q, k, identity)]
            assert len(hit) == 1, f"{path}: key {k!r:.60} not restored"
            same_structure(got[hit[0]], v, f"{path}[]", identity)
    else:
        assert type(got) is type(want) and got == want, f"{path}: {got!r} instead of {want!r}"


def holds(got, want, identity):
    try:
        same_structure(got, want, 'key', identity)
        return True
    except AssertionError:
        return False


def entity(rng):
    """Substitution inside the fields of one object, as a copy and in place."""
    w = gen.World(rng, size=rng.randint(2, 20))
    items = w.all()
    set_uuids(items, 'auto')
    idx = make_index(items)
    o = rng.choice(items)
    before, _keep = gen.snapshot(items)
    flat = substitute_links(o)
    assert snap_eq(items, before), "the copying form modified its input"
    assert type(flat) is type(o) and flat is not o
    d0, d1 = o.as_dict(), flat.as_dict()
    from .c02 import linked
    for k in d0:
        linked(d0[k], d1[k], f"{type(o).__name__}.{k}")
    back = substitute_objects(flat, idx)
    assert snap_eq(items, before), "the copying form modified its input or its index"
    assert type(back) is type(o)
    refs = {k: v for k, v in o.as_dict().items()}
    got = back.as_dict()
    for k, v in refs.items():
        equal_field(got[k], v, f"{type(o).__name__}.{k}")


def equal_field(a, b, path):
    if isinstance(b, BaseEntity):
        assert isinstance(a, BaseEntity), f"{path}: still {type(a).__name__}"
        assert dict(a.uids) == dict(b.uids) and type(a) is type(b), f"{path}: other object"
    elif isinstance(b, (list, tuple)):
        assert len(a) == len(b), path
        for i, (x, y) in enumerate(zip(a, b)):
            equal_field(x, y, f"{path}[{i}]")
    elif isinstance(b, DictSerializable):
        assert type(a) is type(b), path
        da, db = a.as_dict(), b.as_dict()
        for k in db:
            equal_field(da[k], db[k], f"{path}.{k}")
    else:
        assert a == b, f"{path}: {a!r} is not {b!r}"


def entity_inplace(rng):
    w = gen.World(rng, size=rng.randint(2, 20))
    items = w.all()
    set_uuids(items, 'auto')
    idx = make_index(items)
    o = rng.choice(items)
    d0 = {k: copy_shape(v) if isinstance(v, (list, tuple, dict)) else v
          for k, v in o.as_dict().items()}
    r = substitute_links(o, inplace=True)
    assert r is o, "in place returned another object"
    for x in gen.reachable([v for v in o.as_dict().values()], BaseEntity):
        assert False, f"{type(o).__name__} still holds a {type(x).__name__}"
    r = substitute_objects(o, idx, inplace=True)
    assert r is o
    for k, v in o.as_dict().items():
        identical(v, d0[k], f"{type(o).__name__}.{k}")


def identical(a, b, path):
    if isinstance(b, BaseEntity):
        assert a is b, f"{path}: not the original object"
    elif isinstance(b, (list, tuple)):
        assert len(a) == len(b), path
        for i, (x, y) in enumerate(zip(a, b)):
            identical(x, y, f"{path}[{i}]")
    else:
        assert a == b, f"{path} changed"


def scope_choice(rng):
    o = gen.MaterialRun('m', uids={'a': '1', 'b': '2'})
    p = gen.MaterialRun('n', uids={'c': '3'})
    s = rng.choice(['a', 'b', 'A', 'B'])
    got = substitute_links([o, (p,)], scope=s)
    assert got[0] == o and got[0].scope.lower() == s.lower(), "requested scope not used"
    assert (got[1][0].scope, got[1][0].id) == ('c', '3')
    try:
        substitute_links([o, p], scope='a', allow_fallback=False)
        assert False, "missing scope was not reported"
    except ValueError:
        pass


CHECKS = dict(containers=containers, entity=entity, entity_inplace=entity_inplace,
              scope_choice=scope_choice)
SCALE = dict(containers=3.0, entity=2.0, entity_inplace=2.0, scope_choice=0.2)

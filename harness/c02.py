"""C02 concrete contract: flatten."""
from gemd.entity.base_entity import BaseEntity
from gemd.entity.link_by_uid import LinkByUID
from gemd.util import flatten, writable_sort_order
import gemd.json as gj
import json

from . import gen


def check_flat(root, flat, entities):
    def keys(o):
        return {(s, o.uids[s]) for s in o.uids}
    owner = {}
    for o in entities:
        for k in keys(o):
            owner[k] = o
    # exactly once each
    count = {}
    for i, f in enumerate(flat):
        assert isinstance(f, BaseEntity), f"{type(f)} in the flattened list"
        assert f.uids, "flattened object without identifier"
        o = {id(owner[k]) for k in keys(f) if k in owner}
        assert len(o) == 1, "flattened object does not correspond to one object"
        o = o.pop()
        count[o] = count.get(o, 0) + 1
    for o in entities:
        assert count.get(id(o), 0) == 1, \
            f"{type(o).__name__} appears {count.get(id(o), 0)} times in the flattened list"
    assert len(flat) == len(entities), "extra objects in the flattened list"
    pos = {}
    for i, f in enumerate(flat):
        for k in keys(f):
            pos[k] = i
    for i, f in enumerate(flat):
        inner = [e for e in gen.reachable(list(vars(f).values()), BaseEntity)]
        assert not inner, f"{type(f).__name__} still holds a {type(inner[0]).__name__}" \
            if inner else ''
        src = next(o for o in entities if keys(o) & keys(f))
        assert type(src) is type(f), "type changed by flattening"
        for l in gen.reachable(list(vars(f).values()), LinkByUID):
            k = (l.scope, l.id)
            if k in pos:
                assert pos[k] < i, (f"{type(f).__name__} at {i} refers to "
                                    f"{type(flat[pos[k]]).__name__} at {pos[k]}")


def fields_linked(src, f, entities):
    """Every reference of the original is a link to the same object in the flattened one."""
    d0, d1 = src.as_dict(), f.as_dict()
    assert set(d0) == set(d1)
    for k in d0:
        linked(d0[k], d1[k], f"{type(src).__name__}.{k}")


def linked(a, b, path):
    if isinstance(a, BaseEntity):
        assert isinstance(b, LinkByUID), f"{path} is not a link"
        assert (b.scope, b.id) in [(s, a.uids[s]) for s in a.uids], f"{path} links elsewhere"
    elif isinstance(a, (list, tuple)):
        assert len(a) == len(b), f"{path}: length changed"
        for i, (x, y) in enumerate(zip(a, b)):
            linked(x, y, f"{path}[{i}]")
    elif isinstance(a, dict):
        assert dict(a) == dict(b), f"{path} changed"
    elif hasattr(a, 'as_dict'):
        assert type(a) is type(b), path
        x, y = a.as_dict(), b.as_dict()
        for k in x:
            linked(x[k], y[k], f"{path}.{k}")
    else:
        assert type(a) is type(b) and a == b, f"{path}: {a!r} became {b!r}"


def graph(rng):
    w = gen.World(rng, size=rng.randint(1, 30))
    items = w.all()
    k = rng.random()
    root = items if k < 0.4 else (rng.choice(items) if k < 0.8
                                  else gen.nest(rng, items, 3))
    entities = gen.reachable(root, BaseEntity)
    flat = flatten(root, scope='flat')
    for o in entities:
        assert o.uids, "flattening left an object without identifier"
    check_flat(root, flat, entities)
    for o in entities:
        f = next(f for f in flat if {(s, f.uids[s]) for s in f.uids}
                 & {(s, o.uids[s]) for s in o.uids})
        fields_linked(o, f, entities)


def context(rng):
    """The context part of the serialized text, resolved by one forward pass."""
    w = gen.World(rng, size=rng.randint(1, 25))
    root = rng.choice([w.all(), rng.choice(w.all())])
    doc = json.loads(gj.dumps(root))
    seen = set()
    entities = gen.reachable(root, BaseEntity)
    known = {(s, o.uids[s]) for o in entities for s in o.uids}
    assert len(doc['context']) == len(entities), "context does not list every object once"

    def links(x, top):
        if isinstance(x, dict):
            if x.get('type') == LinkByUID.typ:
                yield x['scope'], x['id']
                return
            assert top or 'uids' not in x, "nested object in the context"
            for v in x.values():
                yield from links(v, False)
        elif isinstance(x, list):
            for v in x:
                yield from links(v, False)
    for e in doc['context']:
        for l in links(e, True):
            assert l not in known or l in seen, f"{e['type']} refers to {l} before it is defined"
        seen |= set(e['uids'].items())


def ranks(rng):
    """Every kind that can hold a reference to another kind is ranked after it."""
    w = gen.World(rng, size=40)
    for o in w.all():
        for x in gen.reachable([v for k, v in o.as_dict().items()], BaseEntity):
            pass
        for d in direct(o):
            assert writable_sort_order(d) < writable_sort_order(o), \
                f"{type(d).__name__} not ranked before {type(o).__name__}"
        assert writable_sort_order(o) == writable_sort_order(o.typ)


def direct(o):
    """Entities referred to by the written fields of o."""
    out, todo = [], list(o.as_dict().values())
    while todo:
        x = todo.pop()
        if isinstance(x, BaseEntity):
            out.append(x)
        elif isinstance(x, dict):
            todo.extend(x.values())
        elif isinstance(x, (list, tuple)):
            todo.extend(x)
        elif hasattr(x, 'as_dict'):
            todo.extend(x.as_dict().values())
    return out


def needs_scope(rng):
    """Without a scope, an object without identifier is an error, and nothing is assigned."""
    w = gen.World(rng, size=10, uid_p=rng.choice([0.0, 1.0, 0.5]))
    items = w.all()
    bare = [o for o in items if not o.uids]
    try:
        flat = flatten(items)
        assert not bare, "an object without identifier was flattened"
        check_flat(items, flat, items)
    except ValueError:
        assert bare, "flattening failed although all objects have identifiers"
    for o in bare:
        assert not o.uids


CHECKS = dict(graph=graph, context=context, ranks=ranks, needs_scope=needs_scope)
SCALE = dict(graph=2.0)

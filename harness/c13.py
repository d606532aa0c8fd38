"""C13 concrete contract: links identify their objects."""
from gemd.entity.link_by_uid import LinkByUID

from . import gen


def spell(rng, s):
    t = rng.choice([s, s.upper(), s.lower(), s.title(), s.swapcase()])
    return t if t.lower() == s.lower() else s


def entity(rng):
    w = gen.World(rng, size=rng.randint(1, 8))
    o = rng.choice(w.all())
    n = rng.choice([0, 1, 1, 2, 3])
    scopes = rng.sample(['id', 'My_ID', 'auto', 'été', 'x y', 'SELF'], n)
    o.uids = {s: gen.word(rng) + str(i) for i, s in enumerate(scopes)}
    return o


def make(rng):
    o = entity(rng)
    before = dict(o.uids)
    low = {k.lower(): v for k, v in before.items()}
    state = {k: id(v) for k, v in vars(o).items()}
    req = rng.choice([None, 'missing', 'id', spell(rng, 'my_id'), spell(rng, 'auto'), 'auto'])
    how = rng.choice(['to_link', 'strict', 'fallback', 'from_entity'])
    present = req is not None and req.lower() in low
    try:
        if how == 'from_entity':
            ln = LinkByUID.from_entity(o) if req is None and rng.random() < 0.5 else \
                LinkByUID.from_entity(o, scope=req)
        elif how == 'to_link':
            ln = o.to_link() if req is None else o.to_link(req)
        else:
            ln = o.to_link(req, allow_fallback=how == 'fallback')
    except ValueError:
        assert how != 'from_entity', "from_entity must make an identifier"
        assert not before or (req is not None and not present and how != 'fallback'), \
            f"link with scope {req!r} refused for {before}"
        assert dict(o.uids) == before
        return
    assert {k: id(v) for k, v in vars(o).items()} == state, "making a link changed the object"
    if how == 'from_entity' and not before:
        assert len(o.uids) == 1, "an object without identifiers gets exactly one"
        assert (ln.scope, ln.id) == next(iter(o.uids.items()))
        assert ln.scope == ('auto' if req is None else req)
        assert isinstance(ln.id, str) and ln.id
    else:
        assert dict(o.uids) == before, "making a link changed the identifiers"
        assert before, "a link for an object without identifiers"
        assert ln.scope.lower() in low and low[ln.scope.lower()] == ln.id, \
            f"link {ln!r} is not one of {before}"
        if present or (how == 'from_entity' and req is None and 'auto' in low):
            assert ln.scope.lower() == (req or 'auto').lower(), \
                f"scope {req!r} was requested and present, got {ln!r}"
        elif req is not None:
            assert how in ('fallback', 'from_entity'), \
                f"scope {req!r} is missing from {before} but a link {ln!r} was made"
    assert type(ln) is LinkByUID
    assert ln == o and o == ln and not (ln != o) and not (o != ln), "the link differs from its object"
    assert (ln.scope, ln.id) == o and o == (ln.scope, ln.id)


def compare(rng):
    o, p = entity(rng), entity(rng)
    pool = [(spell(rng, k), v) for x in (o, p) for k, v in x.uids.items()]
    pool += [('id', 'flour0'), ('nope', 'x'), (gen.scope(rng), gen.word(rng))]
    s, i = rng.choice(pool)
    if rng.random() < 0.2:
        i = rng.choice(pool)[1]
    ln = LinkByUID(s, i)
    want = any(k.lower() == s.lower() and v == i for k, v in o.uids.items())
    for other in (ln, (s, i)):
        assert (o == other) is want, f"{dict(o.uids)} == {other!r} is {o == other}"
        assert (other == o) is want, f"{other!r} == {dict(o.uids)} is {other == o}"
        assert (o != other) is (not want) and (other != o) is (not want)
    assert o != (s, i, 1) and o != (s,) and o != ()
    k2 = LinkByUID(*rng.choice(pool))
    same = (ln.scope, ln.id) == (k2.scope, k2.id)
    assert (ln == k2) is same and (k2 == ln) is same
    assert (ln == (k2.scope, k2.id)) is same and ((k2.scope, k2.id) == ln) is same
    if same:
        assert hash(ln) == hash(k2)
    assert ln == LinkByUID(s, i) and hash(ln) == hash(LinkByUID(s, i))
    assert ln != (s, i, 1) and ln != (s,) and not ln == 'x' and not ln == None  # noqa: E711
    assert len({ln, LinkByUID(s, i)}) == 1


CHECKS = dict(make=make, compare=compare)
SCALE = dict(make=4.0, compare=4.0)

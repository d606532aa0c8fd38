"""C04 concrete contract: two-way links after any history."""
from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.object import (IngredientRun, IngredientSpec, MaterialRun, MaterialSpec,
                                MeasurementRun, MeasurementSpec, ProcessRun, ProcessSpec)

KINDS = [(IngredientRun, 'process', ProcessRun, 'ingredients'),
         (IngredientSpec, 'process', ProcessSpec, 'ingredients'),
         (MeasurementRun, 'material', MaterialRun, 'measurements'),
         (MaterialRun, 'process', ProcessRun, 'output_material'),
         (MaterialSpec, 'process', ProcessSpec, 'output_material')]


def make(cls, rng, **kw):
    # few names, so that many objects compare equal
    if cls is IngredientRun:
        return cls(uids=rng.choice([None, None, {'id': 'x'}]), **kw)
    return cls(rng.choice(['a', 'a', 'b']), **kw)


def history(rng):
    pool = {c: [make(c, rng) for _ in range(3)] for c in
            (IngredientRun, IngredientSpec, MeasurementRun, MaterialRun, MaterialSpec, ProcessRun,
             ProcessSpec, MeasurementSpec)}
    out = {}      # process id -> material most recently assigned and not moved since
    link = {}     # (kind index, id(child)) -> parent
    log = []

    def parent_choices(cls):
        bad = [x for c in pool for x in pool[c] if not isinstance(x, cls)][:6]
        return pool[cls] * 3 + [None, None, LinkByUID('id', 'x'), 'str', 7, [pool[cls][0]]] + bad
    for step in range(rng.randint(1, 25)):
        ki = rng.randrange(len(KINDS))
        cls, attr, target, back = KINDS[ki]
        p = rng.choice(parent_choices(target))
        ok = p is None or isinstance(p, (target, LinkByUID))
        if rng.random() < 0.15:
            try:
                x = make(cls, rng, **{attr: p})
                assert ok, f"{cls.__name__} accepted {attr}={p!r:.40}"
                pool[cls].append(x)
                old = None
            except TypeError:
                assert not ok, f"{cls.__name__} rejected {attr}={p!r:.40}"
                check(pool, link, out, log)
                continue
        else:
            x = rng.choice(pool[cls])
            old = link.get((ki, id(x)))
            if cls is IngredientSpec and not ok and isinstance(old, target):
                continue  # K1
            if cls is MaterialSpec and isinstance(old, target) and \
                    (not ok or out.get(id(old)) is not x):
                continue  # K2, K3
            try:
                setattr(x, attr, p)
                assert ok, f"{cls.__name__}.{attr} accepted {p!r:.40}"
            except TypeError:
                assert not ok, f"{cls.__name__}.{attr} rejected {p!r:.40}"
                log.append(f"reject {cls.__name__}.{attr}")
                check(pool, link, out, log)
                continue
        log.append(f"{cls.__name__}#{pool[cls].index_id(x) if False else ''}.{attr}="
                   f"{type(p).__name__}")
        if back == 'output_material':
            if isinstance(old, target) and out.get(id(old)) is x:
                out[id(old)] = None
            if isinstance(p, target):
                out[id(p)] = x
        link[(ki, id(x))] = p
        check(pool, link, out, log)


def check(pool, link, out, log):
    for ki, (cls, attr, target, back) in enumerate(KINDS):
        for x in pool[cls]:
            want = link.get((ki, id(x)))
            got = getattr(x, attr)
            assert got is want, f"{cls.__name__}.{attr} is not what was assigned ({log[-3:]})"
        for p in pool[target]:
            if back == 'output_material':
                got = getattr(p, back)
                assert got is out.get(id(p)), \
                    f"{target.__name__}.output_material is not the last one assigned ({log[-3:]})"
                if got is not None:
                    assert got.process is p, f"output material names another process ({log[-3:]})"
            else:
                lst = getattr(p, back)
                ids = sorted(id(e) for e in lst)
                want = sorted(id(x) for x in pool[cls] if link.get((ki, id(x))) is p)
                assert ids == want, (f"{target.__name__}.{back} has {len(ids)} entries, "
                                     f"{len(want)} objects name it ({log[-3:]})")


CHECKS = dict(history=history)
SCALE = dict(history=4.0)


# ---- recorded findings (KNOWN_FINDINGS.txt): a probe returns True while the finding is there
def k1():
    p = ProcessSpec('p')
    i, other = IngredientSpec('i', process=p), IngredientSpec('i', process=p)
    try:
        i.process = 7
        raise AssertionError("IngredientSpec.process accepted 7")
    except TypeError:
        pass
    assert i.process is p and other.process is p and any(x is other for x in p.ingredients), \
        "a rejected process changed more than the back link of the ingredient"
    return not any(x is i for x in p.ingredients)


def k2():
    p = ProcessSpec('p')
    m = MaterialSpec('m', process=p)
    try:
        m.process = 7
        raise AssertionError("MaterialSpec.process accepted 7")
    except TypeError:
        pass
    assert m.process is p, "a rejected process changed the link"
    assert p.output_material in (m, None)
    return p.output_material is not m


def k3():
    p, q = ProcessSpec('p'), ProcessSpec('q')
    m1, m2 = MaterialSpec('m1', process=p), MaterialSpec('m2', process=p)
    m1.process = q
    assert m1.process is q and q.output_material is m1 and m2.process is p
    assert p.output_material in (m2, None)
    return p.output_material is not m2


KNOWN = dict(K1=k1, K2=k2, K3=k3)

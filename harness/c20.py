"""C20 concrete contract: equality of objects."""
import copy

from gemd.entity.base_entity import BaseEntity
from gemd.entity.object import (IngredientRun, IngredientSpec, MaterialRun, MaterialSpec,
                                MeasurementRun, MeasurementSpec, ProcessRun, ProcessSpec)
from gemd.util import set_uuids

from . import gen

SCALARS = {
    'name': lambda r, v: v + '!', 'notes': lambda r, v: (v or '') + '!',
    'description': lambda r, v: (v or '') + '!',
    'sample_type': lambda r, v: 'virtual' if v != 'virtual' else 'production',
}


def both(a, b, want, what):
    x, y = a == b, b == a
    assert type(x) is bool and type(y) is bool, f"{what}: {x!r} / {y!r}"
    assert x is y, f"{what}: not symmetric"
    assert x is want, f"{what}: {x} instead of {want}"
    assert (a != b) is (not want), what


def world(rng):
    w = gen.World(rng, size=rng.randint(1, 14))
    items = w.all()
    if rng.random() < 0.3:
        set_uuids(items, 'auto')
    return items


def copies(rng):
    """A structural copy of the whole graph compares equal, object by object."""
    items = world(rng)
    twin = copy.deepcopy(items)
    for a, b in zip(items, twin):
        both(a, a, True, f"{type(a).__name__} with itself")
        both(a, b, True, f"{type(a).__name__} with its copy")
    o = rng.choice(items)
    for other in (None, 1, 'x', [], object(), ()):
        assert (o == other) is False and (other == o) is False


def change(rng, o):
    """Change one stored scalar of o (never to an equal value); None if nothing to change."""
    opts = [k for k in SCALARS if hasattr(o, k) and f"_{k}" in vars(o) or k in vars(o)]
    opts.append('uid')
    if isinstance(getattr(o, 'tags', None), list):
        opts.append('tag')
    if getattr(o, 'conditions', None) and isinstance(o, (ProcessRun, ProcessSpec)):
        opts.append('condition')
    if 'bounds' in dir(o):
        opts.append('bounds')
    k = rng.choice(opts)
    if k == 'uid':
        if o.uids and rng.random() < 0.5:
            s = rng.choice(list(o.uids))
            o.uids[s] = o.uids[s] + '!'
        else:
            o.add_uid('verif_extra', 'q')
    elif k == 'tag':
        if len(o.tags) == 0:
            o.add_uid('verif_extra', 'q')  # adding to an empty list is tolerated when flattened
        else:
            i = rng.randrange(len(o.tags))
            o.tags[i] = o.tags[i] + '!'
    elif k == 'condition':
        c = rng.choice(o.conditions)
        c.name = c.name + '!'
    elif k == 'bounds':
        o.bounds = gen.RealBounds(-12345, 12345, 'kg')
    else:
        try:
            setattr(o, k, SCALARS[k](rng, getattr(o, k)))
        except (AttributeError, TypeError):
            o.add_uid('verif_extra', 'q')
            k = 'uid'
    return k




def differences(rng):
    """One scalar change anywhere reachable makes every object that sees it differ."""
    items = world(rng)
    twin = copy.deepcopy(items)
    if not items:
        return
    i = rng.randrange(len(items))
    victim = twin[i]
    k = change(rng, victim)
    both(items[i], victim, False, f"{type(victim).__name__} with changed {k}")
    for j, (a, b) in enumerate(zip(items, twin)):
        if reach(b, victim):
            both(a, b, False, f"{type(b).__name__} reaching a {type(victim).__name__} "
                              f"with changed {k}")




def reach(o, victim):
    """Whether victim is seen by comparing o: fields, ingredients and measurements."""
    seen, todo = set(), [o]
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if x is victim:
            return True
        if isinstance(x, (list, tuple)):
            todo.extend(x)
        elif isinstance(x, dict):
            todo.extend(x.values())
        elif isinstance(x, BaseEntity):
            todo.extend(v for k, v in x._dict_for_compare().items())
        elif hasattr(x, 'as_dict'):
            todo.extend(x.as_dict().values())
    return False


def orders(rng):
    """Lists are compared as multisets."""
    tags = [rng.choice(['a', 'b', 'c']) for _ in range(rng.randint(1, 4))]
    other = [rng.choice(['a', 'b', 'c']) for _ in range(len(tags))]
    if rng.random() < 0.5:
        other = rng.sample(tags, len(tags))
    a, b = MaterialRun('m', tags=tags), MaterialRun('m', tags=other)
    both(a, b, sorted(tags) == sorted(other), f"tags {tags} and {other}")
    c = [gen.Condition(n, value=gen.NominalInteger(ord(n))) for n in tags]
    d = [gen.Condition(n, value=gen.NominalInteger(ord(n))) for n in other]
    a, b = ProcessRun('p', conditions=c), ProcessRun('p', conditions=d)
    both(a, b, sorted(tags) == sorted(other), f"conditions {tags} and {other}")
    p, q = ProcessSpec('p'), ProcessSpec('p')
    for n in tags:
        IngredientSpec(n, process=p)
    for n in other:
        IngredientSpec(n, process=q)
    both(p, q, sorted(tags) == sorted(other), f"ingredients {tags} and {other}")
    m, n_ = MaterialRun('m'), MaterialRun('m')
    for t in tags:
        MeasurementRun(t, material=m)
    for t in other:
        MeasurementRun(t, material=n_)
    both(m, n_, sorted(tags) == sorted(other), f"measurements {tags} and {other}")
    both(ProcessSpec('x'), ProcessRun('x'), False, "different kinds")
    both(MaterialSpec('x'), MaterialRun('x'), False, "different kinds")
    both(MeasurementSpec('x'), MeasurementRun('x'), False, "different kinds")
    both(ProcessSpec('x'), MeasurementSpec('x'), False, "different kinds")
    if rng.random() < 0.5:
        both(MaterialRun('x', tags=tags), MaterialRun('x', tags=tags[:-1]), False, "fewer tags")


def cyclic(rng):
    """A material that is (indirectly) its own ingredient."""
    def build(mark):
        procs = [ProcessRun(f"p{i}") for i in range(n)]
        mats = [MaterialRun(f"m{i}", process=procs[i]) for i in range(n)]
        for i in range(n):
            IngredientRun(process=procs[i], material=mats[(i + 1) % n], notes='n')
            MeasurementRun('z', material=mats[i])
        if mark is not None:
            rng.choice([mats, procs])[mark].notes = 'changed'
        return mats, procs
    n = rng.randint(1, 4)
    (a, pa), (b, pb) = build(None), build(None)
    c, pc = build(rng.randrange(n))
    for i in range(n):
        both(a[i], b[i], True, "copies of a cyclic graph")
        both(pa[i], pb[i], True, "copies of a cyclic graph")
        both(a[i], c[i], False, "cyclic graphs that differ")


def kinds(rng):
    """Objects of different kinds always differ, whatever fields they happen to share."""
    nm = rng.choice(['a', 'b'])
    u = rng.choice([None, {'id': 'x'}])
    things = [c(nm, uids=u) for c in (ProcessRun, ProcessSpec, MaterialRun, MaterialSpec,
                                      MeasurementRun, MeasurementSpec, IngredientSpec,
                                      gen.ProcessTemplate, gen.MaterialTemplate,
                                      gen.MeasurementTemplate)]
    things += [c(nm, bounds=gen.IntegerBounds(0, 1), uids=u) for c in
               (gen.PropertyTemplate, gen.ConditionTemplate, gen.ParameterTemplate)]
    things += [IngredientRun(uids=u)]
    for i, a in enumerate(things):
        for b in things[:i]:
            both(a, b, False, f"{type(a).__name__} and {type(b).__name__}")
    attrs = [c(nm, value=gen.NominalInteger(1)) for c in
             (gen.Property, gen.Condition, gen.Parameter)]
    for i, a in enumerate(attrs):
        for b in attrs[:i] + things[:3]:
            both(a, b, False, f"{type(a).__name__} and {type(b).__name__}")


def small_world(rng):
    """Process, material, ingredient and measurement objects wired at random."""
    def pick(xs, none=True):
        return rng.choice(list(xs) + ([None] if none else []))
    ps = [ProcessSpec('p') for _ in range(rng.randint(1, 3))]
    ms = [MaterialSpec('m', process=pick(ps)) for _ in range(rng.randint(0, 2))]
    ins = [IngredientSpec(rng.choice('aab'), process=pick(ps, False), material=pick(ms),
                          notes=rng.choice([None, None, 'x']))
           for _ in range(rng.randint(0, 5))]
    p = [ProcessRun('p', spec=pick(ps)) for _ in range(rng.randint(1, 3))]
    m = [MaterialRun('m', process=pick(p)) for _ in range(rng.randint(0, 2))]
    for _ in range(rng.randint(0, 5)):
        IngredientRun(process=pick(p, False), material=pick(m), spec=pick(ins),
                      notes=rng.choice([None, None, 'x']))
    for _ in range(rng.randint(0, 2)):
        if m:
            MeasurementRun('q', material=rng.choice(m))
    return ps + ms + ins + p + m


def same_structure(roots):
    """Coarsest partition in which equivalent objects have equivalent fields."""
    objs, todo = {}, list(roots)
    while todo:
        o = todo.pop()
        if id(o) in objs:
            continue
        fields = dict(o._dict_for_compare())
        objs[id(o)] = fields, o
        for v in fields.values():
            todo += [x for x in (v if isinstance(v, list) else [v]) if isinstance(x, BaseEntity)]
    cls = dict.fromkeys(objs, 0)

    def code(v):
        if isinstance(v, BaseEntity):
            return 'e', cls[id(v)]
        if isinstance(v, list):
            return 'l', tuple(sorted(repr(code(x)) for x in v))
        return 's', repr(v)
    while True:
        sig = {k: (cls[k], type(o).__name__, tuple((n, code(v)) for n, v in sorted(f.items())))
               for k, (f, o) in objs.items()}
        number = {}
        new = {k: number.setdefault(s, len(number)) for k, s in sig.items()}
        if len(number) == len(set(cls.values())):
            return new
        cls = new


def exact(rng):
    """== is exactly structural sameness: objects reached through equal references are the same
    up to the order of lists, whatever the sharing and the cycles."""
    w = small_world(rng)
    if rng.random() < 0.6:
        w2 = copy.deepcopy(w)
        for o in w2:
            for f in ('_ingredients', '_measurements'):
                if isinstance(getattr(o, f, None), list):
                    rng.shuffle(getattr(o, f))
        if rng.random() < 0.5:
            o = rng.choice(w2)
            o.notes = 'x' if o.notes is None else None
    else:
        w2 = small_world(rng)
    cls = same_structure(w + w2)
    for a in w:
        for b in w2:
            if type(a) is type(b):
                both(a, b, cls[id(a)] == cls[id(b)], f"two {type(a).__name__}")


def presumed(rng):
    """A result found while an enclosing pair is presumed equal is withdrawn with it."""
    ps, qs = ProcessSpec('ps'), ProcessSpec('ps')
    s1 = IngredientSpec('n1', process=ps, notes='a')
    s2 = IngredientSpec('n2', process=ps)
    t1 = IngredientSpec('n1', process=qs, notes='c')
    t2 = IngredientSpec('n2', process=qs)
    p, q = ProcessRun('p'), ProcessRun('p')
    one, two = [s1, t1, s2], [t1, s1, t2]
    if rng.random() < 0.5:
        rng.shuffle(one)
        rng.shuffle(two)
    for s in one:
        IngredientRun(process=p, spec=s)
    for s in two:
        IngredientRun(process=q, spec=s)
    both(ps, qs, False, "specs whose ingredients differ")
    both(p, q, False, "processes with different ingredients")


CHECKS = dict(kinds=kinds, copies=copies, differences=differences, orders=orders, cyclic=cyclic,
              exact=exact, presumed=presumed)
SCALE = dict(kinds=0.3, copies=3.0, differences=6.0, orders=2.0, cyclic=1.0,
             exact=4.0, presumed=0.2)

"""C18 concrete contract: type names and classes."""
import inspect
import json

from gemd.entity.base_entity import BaseEntity
from gemd.entity.dict_serializable import DictSerializable
from gemd.json import GEMDJson

from . import gen

# the names a reader of stored data relies on
NAMES = """categorical_bounds composition_bounds condition condition_template discrete_categorical
empirical_formula file_link inchi ingredient_run ingredient_spec integer_bounds link_by_uid
material_run material_spec material_template measurement_run measurement_spec measurement_template
molecular_structure_bounds nominal_categorical nominal_composition nominal_integer nominal_real
normal_real parameter parameter_template performed_source process_run process_spec process_template
property property_and_conditions property_template real_bounds smiles uniform_integer
uniform_real""".split()


def concrete():
    out, todo = [], [DictSerializable]
    while todo:
        c = todo.pop()
        todo.extend(type.__subclasses__(c))
        if c.__module__.startswith('gemd.'):
            out.append(c)
    return out


def registry(rng):
    m = DictSerializable.class_mapping
    for n in NAMES:
        assert n in m, f"type name {n} is not known"
    seen = {}
    for c in concrete():
        if isinstance(c.typ, str) and 'typ' in vars(c):
            assert seen.setdefault(c.typ, c) is c, f"{c} and {seen[c.typ]} share {c.typ}"
    for n, c in m.items():
        if c.__module__.startswith('gemd.'):
            assert c.typ == n and seen.get(n) is c, f"{n} maps to {c} whose type name is {c.typ}"
            assert ''.join(w.title() for w in n.split('_')).lower() == c.__name__.lower(), (n, c)
    m['property'] = int
    m['bogus'] = int
    again = DictSerializable.class_mapping
    assert again['property'] is gen.Property and 'bogus' not in again, "the registry is exposed"


def instances(rng):
    w = gen.World(rng, size=rng.randint(1, 10))
    objs = w.all() + [gen.value(rng), gen.bounds(rng), gen.LinkByUID('a', 'b'),
                      gen.FileLink('a', 'b'), gen.Property('p', value=gen.value(rng)),
                      gen.PropertyAndConditions(gen.Property('q'))]
    o = rng.choice(objs)
    d = o.as_dict()
    cls = type(o)
    assert d['type'] == cls.typ and DictSerializable.class_mapping[d['type']] is cls
    from gemd.util import substitute_links, set_uuids
    set_uuids(objs, 'auto')
    flat = substitute_links(o) if isinstance(o, BaseEntity) else o
    text = GEMDJson().raw_dumps(flat)
    raw = json.loads(text)
    assert raw['type'] == cls.typ, "the type name is not written"
    extra = {}
    if rng.random() < 0.6:
        for k in rng.sample(['self', 'cls', 'bogus', 'typ', 'args', 'kwargs', 'skip', '_name', ''], 2):
            raw[k] = extra[k] = rng.choice([1, 'x', None, [1]])
    back = GEMDJson().raw_loads(json.dumps(raw))
    assert type(back) is cls, f"{cls.typ} was read as {type(back)}"
    params = list(inspect.signature(cls).parameters)
    assert set(cls._init_sig()) == set(params), f"{cls.__name__}: fields {cls._init_sig()}"
    fields = {k: v for k, v in flat.as_dict().items() if k != 'type'}
    missing = rng.sample(sorted(fields), min(len(fields), rng.randint(0, 2)))
    missing = [k for k in missing if inspect.signature(cls).parameters.get(k) is not None and
               inspect.signature(cls).parameters[k].default is not inspect._empty]
    given = {k: v for k, v in fields.items() if k not in missing}

    try:
        cls(**{q: v for q, v in given.items() if q in params})
    except Exception:
        given, missing = fields, []
    got = cls.from_dict(dict(given, type=cls.typ, **extra))
    assert type(got) is cls
    for k in given:
        if k in params:
            a, b = getattr(got, k), getattr(flat, k)
            assert a == b or k in missing, f"{cls.__name__}.{k}: {a!r} instead of {b!r}"
    for k in missing:
        assert getattr(cls(**{q: v for q, v in given.items() if q in params}), k) == getattr(got, k)


def unknown(rng):
    n = rng.choice(NAMES)
    bad = rng.choice([n.upper(), n + ' ', n[:-1], '', 'object', 'dict_serializable', 'base_entity',
                      'NotImplementedError', 'none', n.replace('_', '-') if '_' in n else n + '_'])
    if bad in DictSerializable.class_mapping:
        return
    for d in ({'type': bad}, {'x': [{'type': bad, 'name': 'a'}]}, {'type': None}, {'type': 3}):
        for f in (GEMDJson().raw_loads, lambda t: GEMDJson().loads('{"object": %s, "context": []}' % t)):
            try:
                r = f(json.dumps(d))
            except TypeError:
                continue
            assert False, f"{d} was read as {r!r}"
    assert GEMDJson().raw_loads('{"a": {"typ": "x"}}') == {'a': {'typ': 'x'}}


def takeover(rng):
    """Only a subclass of the owner may take a name; this is undone afterwards."""
    reg = type(DictSerializable)._class
    keep = dict(reg)
    try:
        n = rng.choice(NAMES)
        owner = reg[n]
        others = [reg[k] for k in NAMES if not issubclass(reg[k], owner)]
        base = rng.choice(others + [DictSerializable, BaseEntity])
        before = dict(reg)
        try:
            type(DictSerializable)('Thief', (base,), {}, typ=n)
        except ValueError:
            assert reg == before, "a failed takeover changed the registry"
            assert DictSerializable.class_mapping[n] is owner and owner.typ == n
        else:
            assert False, f"{n} was taken from {owner} by a subclass of {base}"
        child = type(DictSerializable)('Child', (owner,), {})
        assert reg == before and child.typ == n
        heir = type(DictSerializable)('Heir', (owner,), {}, typ=n)
        assert DictSerializable.class_mapping[n] is heir
        assert {k: v for k, v in reg.items() if k != n} == {k: v for k, v in before.items() if k != n}
        fresh = type(DictSerializable)('Fresh', (base,), {}, typ='verif_fresh')
        assert DictSerializable.class_mapping['verif_fresh'] is fresh and fresh.typ == 'verif_fresh'
    finally:
        reg.clear()
        reg.update(keep)


CHECKS = dict(registry=registry, instances=instances, unknown=unknown, takeover=takeover)
SCALE = dict(registry=0.2, instances=6.0, unknown=1.0, takeover=2.0)

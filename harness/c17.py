"""C17 concrete contract: builders."""
from gemd.builders import (add_attribute, add_edge, add_measurement, make_attribute, make_node,
                           make_value)
from gemd.entity.attribute import Condition, Parameter, Property, PropertyAndConditions
from gemd.entity.object import (IngredientRun, IngredientSpec, MaterialRun, MaterialSpec,
                                MeasurementRun, MeasurementSpec, ProcessRun, ProcessSpec)
from gemd.entity.template import (ConditionTemplate, MaterialTemplate, MeasurementTemplate,
                                  ParameterTemplate, ProcessTemplate, PropertyTemplate)
from gemd.entity.value import (EmpiricalFormula, InChI, NominalCategorical, NominalInteger,
                               NominalReal, Smiles)
from gemd.units import parse_units

from . import gen

TPL = {Property: PropertyTemplate, Condition: ConditionTemplate, Parameter: ParameterTemplate}
FIELD = {Property: 'properties', Condition: 'conditions', Parameter: 'parameters'}


def node(rng):
    name = gen.name(rng)
    pt = ProcessTemplate(gen.name(rng)) if rng.random() < 0.5 else None
    mt = MaterialTemplate(gen.name(rng)) if rng.random() < 0.5 else None
    pn = gen.word(rng) if rng.random() < 0.5 else None
    m = make_node(name, process_name=pn, process_template=pt, material_template=mt)
    want = pn if pn is not None else pt.name if pt is not None else name
    assert type(m) is MaterialRun and m.name == name
    assert type(m.process) is ProcessRun and m.process.name == want, f"process {m.process.name!r}"
    assert type(m.spec) is MaterialSpec and m.spec.name == name and m.spec.template is mt
    assert type(m.spec.process) is ProcessSpec and m.spec.process.name == want
    assert m.spec.process.template is pt
    assert m.process.spec is m.spec.process, "run and specification processes are not linked"
    assert m.process.output_material is m and m.spec.process.output_material is m.spec
    assert not m.process.ingredients and not m.spec.process.ingredients and not m.measurements
    assert m.template is mt and m.process.template is pt
    return m


def links(mats):
    return [([id(x) for x in m.process.ingredients], [id(x) for x in m.spec.process.ingredients],
             [id(x) for x in m.measurements], id(m.process), id(m.spec), id(m.spec.process),
             id(m.process.output_material)) for m in mats]


def edges(rng):
    mats = [node(rng) for _ in range(rng.randint(2, 5))]
    for _ in range(rng.randint(1, 5)):
        a, b = rng.choice(mats), rng.choice(mats)
        before = links(mats)
        kw, want = {}, dict(mass_fraction=None, number_fraction=None, volume_fraction=None,
                            absolute_quantity=None)
        for f in ('mass_fraction', 'number_fraction', 'volume_fraction'):
            if rng.random() < 0.4:
                x = rng.choice([0, 1, 0.25, 0.5])
                if rng.random() < 0.4:
                    x = rng.choice([gen.NominalReal(x, ''), gen.UniformReal(0, 0.5, '')])
                    want[f] = x
                else:
                    want[f] = (float(x), '')
                kw[f] = x
        if rng.random() < 0.4:
            x = rng.choice([0, 2, 3.5])
            if rng.random() < 0.5:
                kw.update(absolute_quantity=x, absolute_units='kg')
                want['absolute_quantity'] = (float(x), 'kg')
            else:
                kw['absolute_quantity'] = want['absolute_quantity'] = gen.NominalReal(x, 'g')
        if rng.random() < 0.4:
            kw['name'] = gen.name(rng)
        ing = add_edge(a, b, **kw)
        assert type(ing) is IngredientRun and type(ing.spec) is IngredientSpec
        assert ing.name == kw.get('name', a.name) and ing.spec.name == ing.name
        assert ing.material is a and ing.spec.material is a.spec, "input is not the given material"
        assert ing.process is b.process and ing.spec.process is b.spec.process
        after = links(mats)
        for m, x, y in zip(mats, before, after):
            if m is b:
                assert y[0] == x[0] + [id(ing)] and y[1] == x[1] + [id(ing.spec)], \
                    "not exactly one ingredient was added at both levels"
                assert y[2:] == x[2:]
            else:
                assert x == y, "another node was changed"
        for f, w in want.items():
            q = getattr(ing, f)
            if isinstance(w, tuple):
                assert type(q) is NominalReal and q.nominal == w[0] and \
                    q.units == parse_units(w[1]), f"{f}={q}"
            else:
                assert q is w, f"{f}={q} instead of {w}"
    for kw in (dict(absolute_quantity=3.0), dict(absolute_units='kg'),
               dict(absolute_quantity=gen.NominalReal(1, 'kg'), absolute_units='kg')):
        try:
            add_edge(node(rng), node(rng), **kw)
        except ValueError:
            continue
        assert False, f"{kw} accepted"
    before = links(mats)
    for a, b in ((mats[0], MaterialRun('x')), (MaterialRun('x'), mats[0]),
                 (mats[0], MaterialRun('x', spec=MaterialSpec('y'))),
                 (mats[0], MaterialRun('x', process=ProcessRun('q'), spec=MaterialSpec('y'))),
                 (mats[0], MaterialRun('x', spec=MaterialSpec('y', process=ProcessSpec('z'))))):
        try:
            add_edge(a, b)
        except ValueError:
            assert links(mats) == before, "a refused connection changed a node"
            continue
        assert False, "unconnected materials were connected"


def measurement(rng):
    m = node(rng)
    other = [MeasurementRun('z', material=m) for _ in range(rng.randint(0, 2))]
    t = MeasurementTemplate(gen.name(rng)) if rng.random() < 0.6 else None
    n = gen.word(rng) if t is None or rng.random() < 0.5 else None
    attrs = [rng.choice([Property, Condition, Parameter])(gen.name(rng)) for _ in
             range(rng.randint(0, 5))]
    r = add_measurement(m, name=n, template=t, attributes=rng.choice([attrs, tuple(attrs)])
                        if attrs or rng.random() < 0.5 else None)
    want = n if n is not None else t.name
    assert type(r) is MeasurementRun and r.name == want and r.material is m
    assert type(r.spec) is MeasurementSpec and r.spec.name == want and r.spec.template is t
    assert [id(x) for x in m.measurements] == [id(x) for x in other + [r]], \
        "the measurement is not listed exactly once on its material"
    for c in (Property, Condition, Parameter):
        got = getattr(r, FIELD[c])
        assert [id(x) for x in got] == [id(x) for x in attrs if type(x) is c], \
            f"{FIELD[c]} are {got}"
    for bad in (dict(), dict(name='x', attributes=[3]), dict(
            name='x', attributes=[PropertyAndConditions(Property('p'))])):
        try:
            add_measurement(m, **bad)
        except (ValueError, TypeError):
            continue
        assert False, f"{bad} accepted"


def fitting(rng, b):
    if isinstance(b, gen.RealBounds):
        return rng.choice([b.lower_bound, b.upper_bound, int(b.lower_bound), 3, 0.1])
    if isinstance(b, gen.IntegerBounds):
        return rng.choice([b.lower_bound, b.upper_bound, 2 ** 53 + 1, float(b.lower_bound)])
    if isinstance(b, gen.CategoricalBounds):
        return rng.choice(sorted(b.categories) + [gen.word(rng)])
    if isinstance(b, gen.CompositionBounds):
        return rng.choice(['H2O', 'NaCl', 'C6H12O6'])
    return rng.choice(['CCO', 'InChI=1S/CH4/h1H4', 'InChI=1/H2O', '', 'c1ccccc1', '[InChI=]'])


def value(rng):
    b = gen.bounds(rng)
    x = fitting(rng, b)
    v = make_value(x, b)
    check_value(v, x, b)
    for bad in (None, 3, 'x', gen.NominalReal(1, ''), [b]):
        try:
            make_value(x, bad)
        except ValueError:
            continue
        assert False, f"bounds {bad!r} accepted"
    wrong = {gen.RealBounds: ['x', None, [1]], gen.IntegerBounds: [2.5, 'x', None, float('nan')],
             gen.CategoricalBounds: [3, 2.5, ['a']], gen.CompositionBounds: [3, 'Xx2', []],
             gen.MolecularStructureBounds: [3, ['C'], 2.5]}[type(b)]
    for w in wrong:
        try:
            r = make_value(w, b)
        except Exception:
            continue
        assert False, f"make_value({w!r}, {b}) gave {r}"


def check_value(v, x, b):
    if isinstance(b, gen.RealBounds):
        assert type(v) is NominalReal and v.nominal == x and v.units == b.default_units, f"{v}"
    elif isinstance(b, gen.IntegerBounds):
        assert type(v) is NominalInteger and v.nominal == x, f"{x!r} became {v}"
    elif isinstance(b, gen.CategoricalBounds):
        assert type(v) is NominalCategorical and v.category == x, f"{x!r} became {v}"
    elif isinstance(b, gen.CompositionBounds):
        assert type(v) is EmpiricalFormula and v.formula == x, f"{x!r} became {v}"
    elif x.startswith('InChI='):
        assert type(v) is InChI and v.inchi == x, f"{x!r} became {v}"
    else:
        assert type(v) is Smiles and v.smiles == x, f"{x!r} became {v}"


def attribute(rng):
    c = rng.choice(list(TPL))
    t = TPL[c](gen.name(rng), bounds=gen.bounds(rng))
    given = gen.value_for(rng, t.bounds) if rng.random() < 0.4 else None
    x = given if given is not None else fitting(rng, t.bounds)

    def good(a):
        assert type(a) is c and a.template is t and a.name == t.name
        if given is not None:
            assert a.value is given
        else:
            check_value(a.value, x, t.bounds)
    good(make_attribute(t, x))
    target = rng.choice([ProcessSpec('p'), ProcessRun('p'), MeasurementSpec('m'), MeasurementRun('m'),
                         MaterialSpec('m'), MaterialRun('m'), IngredientRun()])
    ok = {Property: (MeasurementRun, MaterialSpec),
          Condition: (ProcessSpec, ProcessRun, MeasurementSpec, MeasurementRun, MaterialSpec),
          Parameter: (ProcessSpec, ProcessRun, MeasurementSpec, MeasurementRun)}[c]
    n = rng.randint(0, 2)
    if isinstance(target, MaterialSpec):
        for _ in range(n):
            target.properties.append(PropertyAndConditions(
                Property('p'), conditions=[Condition('c')] * rng.randint(0, 1)))
    elif isinstance(target, ok):
        for _ in range(n):
            getattr(target, FIELD[c]).append(c('pre'))

    def flat():
        out = {f: list(getattr(target, f)) for f in FIELD.values() if hasattr(target, f)}
        if isinstance(target, MaterialSpec):
            out = {'properties': [y.property for y in target.properties],
                   'per': [list(y.conditions) for y in target.properties]}
        return out
    before = flat()
    possible = isinstance(target, ok) and not (isinstance(target, MaterialSpec) and c is Condition
                                               and n == 0)
    try:
        a = add_attribute(target, t, x)
    except ValueError:
        assert not possible, f"{c.__name__} refused by {type(target).__name__}"
        assert flat() == before
        return
    assert possible, f"{c.__name__} added to {type(target).__name__}"
    good(a)
    after = flat()
    if isinstance(target, MaterialSpec):
        if c is Property:
            before['properties'].append(a)
            before['per'].append([])
        else:
            before['per'][-1].append(a)
    else:
        before[FIELD[c]].append(a)

    def ident(d):
        return {k: [id(y) if not isinstance(y, list) else [id(z) for z in y] for y in v]
                for k, v in d.items()}
    assert ident(after) == ident(before), "the attribute is not exactly once at the end of its list"
    for bad in (None, gen.MaterialTemplate('m'), 3, gen.LinkByUID('a', 'b')):
        try:
            make_attribute(bad, 3)
        except ValueError:
            continue
        assert False, f"template {bad!r} accepted"


CHECKS = dict(node=node, edges=edges, measurement=measurement, value=value, attribute=attribute)
SCALE = dict(node=1.0, edges=4.0, measurement=3.0, value=6.0, attribute=6.0)

"""Random generators of GEMD data (public interface only)."""
import string

from gemd.entity.base_entity import BaseEntity
from gemd.entity.attribute import Condition, Parameter, Property, PropertyAndConditions
from gemd.entity.bounds import (CategoricalBounds, CompositionBounds, IntegerBounds,
                                MolecularStructureBounds, RealBounds)
from gemd.entity.file_link import FileLink
from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.object import (IngredientRun, IngredientSpec, MaterialRun, MaterialSpec,
                                MeasurementRun, MeasurementSpec, ProcessRun, ProcessSpec)
from gemd.entity.source.performed_source import PerformedSource
from gemd.entity.template import (ConditionTemplate, MaterialTemplate, MeasurementTemplate,
                                  ParameterTemplate, ProcessTemplate, PropertyTemplate)
from gemd.entity.value import (DiscreteCategorical, EmpiricalFormula, InChI, NominalCategorical,
                               NominalComposition, NominalInteger, NominalReal, NormalReal,
                               Smiles, UniformInteger, UniformReal)
from gemd.enumeration import Origin, SampleType

UNIT_GROUPS = [['', 'percent', 'dimensionless'], ['g', 'kg', 'mg', 'pound'], ['m', 'cm', 'inch'],
               ['K', 'degC', 'degF'], ['s', 'hour'], ['Pa', 'MPa', 'psi'], ['J/g', 'kJ/kg'],
               ['radian', 'degree'], ['count']]
WORDS = ['flour', 'Flour', 'sugar', 'x', '', 'a b', 'été', 'Δ', 'ID', 'id', 'Id', '0', 'None',
         'a::b', '  pad ', '日本']


def word(rng):
    if rng.random() < 0.6:
        return rng.choice(WORDS)
    return ''.join(rng.choice(string.ascii_letters + ' _-') for _ in range(rng.randint(1, 8)))


def name(rng):
    return word(rng) or 'n'


def scope(rng):
    return rng.choice(['id', 'my_id', 'auto', 'my id', 'SCOPE', 'été', 'x', 'Ids'])


def number(rng):
    k = rng.random()
    if k < 0.3:
        return rng.randint(-5, 5)
    if k < 0.6:
        return rng.uniform(-10, 10)
    if k < 0.7:
        return rng.choice([0, 1, -1, 0.5, 1e-9, 1e12, 0.1, 1 / 3])
    return round(rng.uniform(-100, 100), 3)


def units(rng):
    return rng.choice(rng.choice(UNIT_GROUPS))


def pair(rng):
    a, b = number(rng), number(rng)
    return (a, b) if a <= b else (b, a)


def names(rng, lo=1, hi=4):
    return [word(rng) or 'c' for _ in range(rng.randint(lo, hi))]


def real_value(rng, unit=None):
    u = units(rng) if unit is None else unit
    k = rng.randrange(3)
    if k == 0:
        return NominalReal(number(rng), u)
    if k == 1:
        lo, hi = pair(rng)
        return UniformReal(lo, hi, u)
    return NormalReal(number(rng), abs(number(rng)), u)


def value(rng, kind=None):
    kind = kind or rng.choice(['real', 'real', 'int', 'cat', 'comp', 'mol'])
    if kind == 'real':
        return real_value(rng)
    if kind == 'int':
        if rng.random() < 0.5:
            return NominalInteger(rng.randint(-9, 9))
        a, b = sorted((rng.randint(-9, 9), rng.randint(-9, 9)))
        return UniformInteger(a, b)
    if kind == 'cat':
        if rng.random() < 0.5:
            return NominalCategorical(word(rng))
        return DiscreteCategorical(probabilities(rng))
    if kind == 'comp':
        if rng.random() < 0.5:
            return NominalComposition({n: abs(number(rng)) for n in names(rng)})
        return EmpiricalFormula(rng.choice(['H2O', 'SiO2', 'NaCl', '(C8H8)0.5', 'C6H12O6',
                                            'Al2(SO4)3']))
    if rng.random() < 0.5:
        return Smiles(rng.choice(['C', 'CCO', 'c1ccccc1', '']))
    return InChI(rng.choice(['InChI=1S/CH4/h1H4', 'InChI=1S/C2H6O/c1-2-3/h3H,2H2,1H3',
                             'InChI=1/H2O/h1H2']))


def probabilities(rng):
    ns = sorted(set(names(rng, 1, 4)))
    w = [2 ** rng.randrange(3) for _ in ns]
    tot = sum(w)
    ps = [x / tot for x in w]
    ps[-1] = 1.0 - sum(ps[:-1])
    return dict(zip(ns, ps))


def bounds(rng, kind=None):
    kind = kind or rng.choice(['real', 'real', 'int', 'cat', 'comp', 'mol'])
    if kind == 'real':
        lo, hi = pair(rng)
        return RealBounds(lo, hi, units(rng))
    if kind == 'int':
        a, b = sorted((rng.randint(-9, 9), rng.randint(-9, 9)))
        return IntegerBounds(a, b)
    if kind == 'cat':
        return CategoricalBounds(names(rng, 0, 5))
    if kind == 'comp':
        return CompositionBounds(names(rng, 0, 5))
    return MolecularStructureBounds()


def file_links(rng):
    return [FileLink(name(rng), rng.choice(['http://a/b', 'x'])) for _ in range(rng.randint(0, 2))]


def tags(rng):
    return [name(rng) for _ in range(rng.randint(0, 3))]


def some(rng, x, p=0.6):
    return x() if rng.random() < p else None


ATTR = {Property: PropertyTemplate, Condition: ConditionTemplate, Parameter: ParameterTemplate}


def narrowed(rng, b):
    """Bounds contained in b (or None)."""
    if rng.random() < 0.4:
        return None
    if isinstance(b, RealBounds):
        w = b.upper_bound - b.lower_bound
        lo = b.lower_bound + w * rng.choice([0, 0.25])
        hi = b.upper_bound - w * rng.choice([0, 0.25])
        return RealBounds(min(lo, hi), max(lo, hi), b.default_units)
    if isinstance(b, IntegerBounds):
        return IntegerBounds(b.lower_bound, max(b.lower_bound, b.upper_bound - rng.randint(0, 2)))
    if isinstance(b, CategoricalBounds):
        return CategoricalBounds([c for c in sorted(b.categories) if rng.random() < 0.7])
    if isinstance(b, CompositionBounds):
        return CompositionBounds([c for c in sorted(b.components) if rng.random() < 0.7])
    return b


def value_for(rng, b):
    """A value that fits the bounds, or None."""
    if isinstance(b, RealBounds):
        return NominalReal(b.lower_bound, b.default_units)
    if isinstance(b, IntegerBounds):
        return NominalInteger(rng.randint(b.lower_bound, b.upper_bound))
    if isinstance(b, CategoricalBounds):
        return NominalCategorical(rng.choice(sorted(b.categories))) if b.categories else None
    if isinstance(b, CompositionBounds):
        return NominalComposition({rng.choice(sorted(b.components)): 1.0}) if b.components \
            else None
    return Smiles('CC')


class World:
    """A random consistent graph of entities."""

    def __init__(self, rng, size=12, uid_p=0.4, link_p=0.15):
        self.rng = rng
        self.uid_p = uid_p
        self.link_p = link_p
        self.n = 0
        self.templates = {PropertyTemplate: [], ConditionTemplate: [], ParameterTemplate: []}
        self.objs = {c: [] for c in (MaterialTemplate, MeasurementTemplate, ProcessTemplate,
                                     MaterialSpec, MeasurementSpec, ProcessSpec, IngredientSpec,
                                     MaterialRun, MeasurementRun, ProcessRun, IngredientRun)}
        makers = [self.attr_template] * 3 + [
            self.material_template, self.measurement_template, self.process_template,
            self.process_spec, self.material_spec, self.measurement_spec, self.ingredient_spec,
            self.process_run, self.material_run, self.measurement_run, self.ingredient_run]
        for _ in range(size):
            rng.choice(makers)()

    # -- helpers
    def all(self):
        return [o for v in self.templates.values() for o in v] + \
            [o for v in self.objs.values() for o in v]

    def uids(self):
        self.n += 1
        if self.rng.random() < self.uid_p:
            d = {scope(self.rng): f"u{self.n}"}
            if self.rng.random() < 0.3:
                d['other_' + scope(self.rng)] = f"o{self.n}"
            return d
        return None

    def ref(self, cls, p=0.7):
        """An object of the class, a link, or nothing."""
        rng = self.rng
        if rng.random() > p:
            return None
        if rng.random() < self.link_p or not self.objs[cls]:
            return LinkByUID(scope(rng), f"link{rng.randrange(5)}") if rng.random() < 0.5 else None
        return rng.choice(self.objs[cls])

    def common(self):
        rng = self.rng
        return dict(uids=self.uids(), tags=tags(rng))

    def obj(self):
        rng = self.rng
        return dict(self.common(), notes=some(rng, lambda: word(rng)), file_links=file_links(rng))

    def attr_template(self, cls=None):
        rng = self.rng
        cls = cls or rng.choice(list(self.templates))
        t = cls(name(rng), bounds=bounds(rng), description=some(rng, lambda: word(rng)),
                **self.common())
        self.templates[cls].append(t)
        return t

    def template_list(self, cls):
        rng = self.rng
        out = []
        for _ in range(rng.randint(0, 3)):
            if rng.random() < 0.15:
                t = LinkByUID(scope(rng), f"tl{rng.randrange(4)}")
                out.append(t if rng.random() < 0.5 else [t, None])
            elif self.templates[cls]:
                t = rng.choice(self.templates[cls])
                k = rng.random()
                if k < 0.3:
                    out.append(t)
                else:
                    out.append((t, narrowed(rng, t.bounds)))
        return out

    def attrs(self, cls, hi=2):
        rng = self.rng
        out = []
        for _ in range(rng.randint(0, hi)):
            tc = ATTR[cls]
            if rng.random() < 0.5 and self.templates[tc]:
                t = rng.choice(self.templates[tc])
                out.append(cls(name(rng), template=t, value=value_for(rng, t.bounds),
                               origin=rng.choice(list(Origin)),
                               notes=some(rng, lambda: word(rng)), file_links=file_links(rng)))
            elif rng.random() < 0.3:
                out.append(cls(name(rng), template=LinkByUID(scope(rng), 'at'),
                               value=some(rng, lambda: value(rng)), origin='measured'))
            else:
                out.append(cls(name(rng), value=some(rng, lambda: value(rng)),
                               origin=rng.choice(['measured', 'Predicted', Origin.COMPUTED])))
        return out

    def add(self, o):
        self.objs[type(o)].append(o)
        return o

    # -- entities
    def material_template(self):
        return self.add(MaterialTemplate(name(self.rng),
                                         properties=self.template_list(PropertyTemplate),
                                         description=some(self.rng, lambda: word(self.rng)),
                                         **self.common()))

    def measurement_template(self):
        return self.add(MeasurementTemplate(
            name(self.rng), properties=self.template_list(PropertyTemplate),
            conditions=self.template_list(ConditionTemplate),
            parameters=self.template_list(ParameterTemplate), **self.common()))

    def process_template(self):
        rng = self.rng
        return self.add(ProcessTemplate(
            name(rng), conditions=self.template_list(ConditionTemplate),
            parameters=self.template_list(ParameterTemplate),
            allowed_names=some(rng, lambda: names(rng), 0.3),
            allowed_labels=some(rng, lambda: names(rng), 0.3), **self.common()))

    def process_spec(self):
        return self.add(ProcessSpec(name(self.rng), template=self.ref(ProcessTemplate),
                                    conditions=self.attrs(Condition),
                                    parameters=self.attrs(Parameter), **self.obj()))

    def material_spec(self):
        rng = self.rng
        p = self.ref(ProcessSpec)
        if isinstance(p, ProcessSpec) and p.output_material is not None:
            p = None
        props = [PropertyAndConditions(q, self.attrs(Condition)) for q in self.attrs(Property)]
        return self.add(MaterialSpec(name(rng), template=self.ref(MaterialTemplate),
                                     properties=props, process=p, **self.obj()))

    def measurement_spec(self):
        return self.add(MeasurementSpec(name(self.rng), template=self.ref(MeasurementTemplate),
                                        conditions=self.attrs(Condition),
                                        parameters=self.attrs(Parameter), **self.obj()))

    def quantities(self):
        rng = self.rng
        q = {}
        for f in ('mass_fraction', 'volume_fraction', 'number_fraction'):
            if rng.random() < 0.3:
                q[f] = NominalReal(rng.random(), rng.choice(['', 'percent']))
        if rng.random() < 0.3:
            q['absolute_quantity'] = NominalReal(abs(number(rng)), rng.choice(['g', 'kg', 'm']))
        return q

    def ingredient_spec(self):
        rng = self.rng
        return self.add(IngredientSpec(name(rng), material=self.ref(MaterialSpec),
                                       process=self.ref(ProcessSpec),
                                       labels=some(rng, lambda: names(rng)), **self.quantities(),
                                       **self.obj()))

    def source(self):
        rng = self.rng
        return some(rng, lambda: PerformedSource(
            performed_by=some(rng, lambda: name(rng)),
            performed_date=some(rng, lambda: '2020-01-01')), 0.3)

    def process_run(self):
        return self.add(ProcessRun(name(self.rng), spec=self.ref(ProcessSpec),
                                   conditions=self.attrs(Condition),
                                   parameters=self.attrs(Parameter), source=self.source(),
                                   **self.obj()))

    def material_run(self):
        rng = self.rng
        p = self.ref(ProcessRun)
        if isinstance(p, ProcessRun) and p.output_material is not None:
            p = None
        return self.add(MaterialRun(name(rng), spec=self.ref(MaterialSpec), process=p,
                                    sample_type=rng.choice(list(SampleType)), **self.obj()))

    def measurement_run(self):
        return self.add(MeasurementRun(name(self.rng), spec=self.ref(MeasurementSpec),
                                       material=self.ref(MaterialRun),
                                       properties=self.attrs(Property),
                                       conditions=self.attrs(Condition),
                                       parameters=self.attrs(Parameter), source=self.source(),
                                       **self.obj()))

    def ingredient_run(self):
        return self.add(IngredientRun(material=self.ref(MaterialRun),
                                      process=self.ref(ProcessRun),
                                      spec=self.ref(IngredientSpec), **self.quantities(),
                                      **self.obj()))


def nest(rng, items, depth=2, keys=True):
    """Plain data around the given items."""
    k = rng.randrange(6)
    if depth <= 0 or k == 0 or not items:
        return rng.choice(items) if items and rng.random() < 0.8 else scalar(rng)
    if k in (1, 2):
        return [nest(rng, items, depth - 1, keys) for _ in range(rng.randint(0, 4))]
    if k == 3:
        return tuple(nest(rng, items, depth - 1, keys) for _ in range(rng.randint(0, 3)))
    return {f"k{i}": nest(rng, items, depth - 1, keys) for i in range(rng.randint(0, 3))}


def scalar(rng):
    return rng.choice([None, True, False, 0, 1, 1.0, 0.0, -3, 2.5, 'txt', '', 'été', 10 ** 20])


# ------------------------------------------------------------------ independent views
def stored(o):
    """The stored state of an object, by field name (vars)."""
    return dict(vars(o))


def children(o):
    """Everything directly held by a value (independent of the library's traversal)."""
    from gemd.entity.dict_serializable import DictSerializable
    if isinstance(o, DictSerializable):
        return list(vars(o).values())
    if isinstance(o, dict):
        return list(o.keys()) + list(o.values())
    if isinstance(o, (list, tuple, set, frozenset)):
        return list(o)
    return []


def reachable(root, want):
    """Identity-distinct instances of `want` reachable from root."""
    seen, out, todo = set(), [], [root]
    keep = []
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        if isinstance(x, (str, bytes, int, float, bool)) or x is None:
            continue
        seen.add(id(x))
        keep.append(x)
        if isinstance(x, want):
            out.append(x)
        todo.extend(children(x))
    return out


def deep_same(a, b, memo=None, ignore=()):
    """Structural equality with identity correspondence; returns None or a description."""
    from gemd.entity.dict_serializable import DictSerializable
    memo = memo if memo is not None else ({}, {})
    todo = [(a, b, 'root')]
    while todo:
        x, y, path = todo.pop()
        if type(x) is not type(y):
            return f"{path}: {type(x).__name__} became {type(y).__name__}"
        if isinstance(x, DictSerializable):
            if isinstance(x, BaseEntity):
                if id(x) in memo[0]:
                    if memo[0][id(x)] is not y:
                        return f"{path}: shared object no longer shared"
                    continue
                if id(y) in memo[1]:
                    return f"{path}: distinct objects were merged"
                memo[0][id(x)] = y
                memo[1][id(y)] = x
            dx, dy = vars(x), vars(y)
            if isinstance(x, IngredientRun) and isinstance(x.spec, IngredientSpec):
                # name and labels are those of the spec; what is cached underneath is private
                dx = {k: v for k, v in dx.items() if k not in ('_name', '_labels')}
                dy = {k: v for k, v in dy.items() if k not in ('_name', '_labels')}
                if x.name != y.name or x.labels != y.labels:
                    return f"{path}: name or labels changed"
            if set(dx) != set(dy):
                return f"{path}: fields {sorted(set(dx) ^ set(dy))} differ"
            for k in dx:
                if k not in ignore:
                    todo.append((dx[k], dy[k], f"{path}.{k}"))
        elif isinstance(x, dict):
            if list(x) != list(y) and set(x) != set(y):
                return f"{path}: keys {list(x)!r} became {list(y)!r}"
            for k in x:
                todo.append((dict.__getitem__(x, k), dict.__getitem__(y, k), f"{path}[{k!r}]"))
        elif isinstance(x, (list, tuple)):
            if len(x) != len(y):
                return f"{path}: length {len(x)} became {len(y)}"
            for i, (p, q) in enumerate(zip(x, y)):
                todo.append((p, q, f"{path}[{i}]"))
        elif isinstance(x, (set, frozenset)):
            if x != y:
                return f"{path}: {x!r} became {y!r}"
        elif callable(x):
            continue
        elif isinstance(x, float):
            if repr(x) != repr(y):
                return f"{path}: {x!r} became {y!r}"
        elif x != y:
            return f"{path}: {x!r} became {y!r}"
    return None


def snapshot(root, want=None):
    """A value describing the full state reachable from root, by identity."""
    from gemd.entity.dict_serializable import DictSerializable
    seen, todo, out, keep = set(), [root], [], []

    def key(v):
        if v is None or isinstance(v, (str, bytes, bool, int, float)):
            return (type(v).__name__, repr(v))
        return ('id', id(v))
    while todo:
        x = todo.pop()
        if id(x) in seen or x is None or isinstance(x, (str, bytes, bool, int, float)) \
                or callable(x) and not isinstance(x, DictSerializable):
            continue
        seen.add(id(x))
        keep.append(x)
        if isinstance(x, DictSerializable):
            out.append((id(x), tuple(sorted((k, key(v)) for k, v in vars(x).items()))))
            todo.extend(vars(x).values())
        elif isinstance(x, dict):
            out.append((id(x), tuple((key(k), key(dict.__getitem__(x, k)))
                                     for k in dict.keys(x))))
            todo.extend(dict.values(x))
            todo.extend(dict.keys(x))
        elif isinstance(x, (list, tuple)):
            out.append((id(x), tuple(key(v) for v in x)))
            todo.extend(x)
        elif isinstance(x, (set, frozenset)):
            out.append((id(x), tuple(sorted(map(repr, x)))))
    return sorted(out, key=lambda p: p[0]), keep

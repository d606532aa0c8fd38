"""Class invariants ("shapes"): what the fields of every existing object can hold.

They are assumed for the objects a proof starts from and are themselves proof obligations of the
constructors and setters (units of C05, C09, C16 and C20 and the `shape:` units).  `drift()` compares
the table with freshly constructed objects, so that a change of the private layout is noticed
(the units then fall back to their bounded stand-ins instead of misreading the code).
"""
import inspect

import z3

import gemd.builders  # noqa: F401
import gemd.json  # noqa: F401
from gemd.entity.attribute import Condition, Parameter, Property, PropertyAndConditions
from gemd.entity.bounds import (CategoricalBounds, CompositionBounds, IntegerBounds,
                                MolecularStructureBounds, RealBounds)
from gemd.entity.bounds_validation import WarningLevel
from gemd.entity.case_insensitive_dict import CaseInsensitiveDict
from gemd.entity.file_link import FileLink
from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.object import (IngredientRun, IngredientSpec, MaterialRun, MaterialSpec,
                                MeasurementRun, MeasurementSpec, ProcessRun, ProcessSpec)
from gemd.entity.source.performed_source import PerformedSource
from gemd.entity.template import (ConditionTemplate, MaterialTemplate, MeasurementTemplate,
                                  ParameterTemplate, ProcessTemplate, PropertyTemplate)
from gemd.entity.valid_list import ValidList
from gemd.entity.value import (DiscreteCategorical, EmpiricalFormula, InChI, NominalCategorical,
                               NominalComposition, NominalInteger, NominalReal, NormalReal,
                               Smiles, UniformInteger, UniformReal)
from gemd.enumeration import Origin, SampleType

from pyvc.ctx import Unsupported
from pyvc.values import *  # noqa: F401,F403
from pyvc.values import UNIVERSE, Val, clsof, I

NONE = type(None)
REALS = (NominalReal, NormalReal, UniformReal)
INTS = (NominalInteger, UniformInteger)
CATS = (NominalCategorical, DiscreteCategorical)
COMPS = (NominalComposition, EmpiricalFormula)
MOLS = (Smiles, InChI)
VALUES = REALS + INTS + CATS + COMPS + MOLS
BOUNDS = (RealBounds, IntegerBounds, CategoricalBounds, CompositionBounds,
          MolecularStructureBounds)
ATTRS = (Property, Condition, Parameter)
ATTR_TEMPLATES = (PropertyTemplate, ConditionTemplate, ParameterTemplate)
OBJ_TEMPLATES = (MaterialTemplate, MeasurementTemplate, ProcessTemplate)
SPECS = (MaterialSpec, MeasurementSpec, ProcessSpec, IngredientSpec)
RUNS = (MaterialRun, MeasurementRun, ProcessRun, IngredientRun)
ENTITIES = ATTR_TEMPLATES + OBJ_TEMPLATES + SPECS + RUNS
NONENTITIES = VALUES + BOUNDS + ATTRS + (PropertyAndConditions, LinkByUID, FileLink,
                                         PerformedSource)
GEMD = ENTITIES + NONENTITIES
NUM = (int, float, bool)

for _c in GEMD + (ValidList, CaseInsensitiveDict, Origin, SampleType, WarningLevel):
    UNIVERSE.add(_c)

OWNER = z3.Function('OWNER', I, I)     # the object a private container belongs to
OWNFIELD = z3.Function('OWNFIELD', I, I)  # ... and the field holding it
_field_ids = {}


def field_id(f):
    return _field_ids.setdefault(f, len(_field_ids) + 1)


class Field:
    """The classes a field can hold; nothing more is known."""

    def __init__(self, *classes):
        self.classes = []
        for c in classes:
            self.classes.extend(c if isinstance(c, tuple) else (c,))

    def concrete(self, ctx, owner, term):
        return None

    def facts(self, ctx, owner, term):
        return []

    def attach(self, ctx, owner, term):
        pass


class Finite(Field):
    """A finite number."""

    def __init__(self, *classes):
        super().__init__(*classes)

    def facts(self, ctx, owner, term):
        return [z3.Not(Val.is_inf(term)), z3.Not(Val.is_nan(term))]


class ListOf(Field):
    """A private typed list: owned by its object, elements of the given classes."""

    def __init__(self, name, *elems, content=None, trigger=None, optional=False):
        super().__init__(ValidList, *([NONE] if optional else []))
        self.name = name
        self.elems = []
        for c in elems:
            self.elems.extend(c if isinstance(c, tuple) else (c,))
        self.content = content
        self.trigger = trigger

    def facts(self, ctx, owner, term):
        a = Val.a(term)
        return [z3.Implies(Val.is_ref(term), z3.And(OWNER(a) == ctx.at(ctx.addr(owner)),
                                                    OWNFIELD(a) == field_id(self.name)))]

    def attach(self, ctx, owner, term):
        ctx.list_shapes[term.get_id()] = self

    def content_facts(self, ctx, v, n, arr):
        # elements of existing lists exist already
        i = z3.Int('i!shape')
        ctx.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n, Val.is_ref(arr[i])),
                                             Val.a(arr[i]) > 0), patterns=[arr[i]]))

    def elem_facts(self, ctx, v, el):
        if isinstance(el, SV) and ctx.ctor(el.t) is None and \
                el.t.get_id() not in ctx.typefacts:
            ctx.touch(el.t)
            ctx.assume(z3.Implies(Val.is_ref(el.t), Val.a(el.t) > 0))
            ctx.narrow(el.t, self.elems)


class ContentType(Field):
    """The private fields of a typed list follow from where the list is kept."""

    def __init__(self, what):
        super().__init__(object)
        self.what = what

    def concrete(self, ctx, owner, term):
        shape = ctx.list_shapes.get(owner.t.get_id())
        if shape is None or not isinstance(shape, ListOf):
            raise Unsupported(f"{self.what} of a typed list of unknown origin")
        if self.what == '_content_type':
            return (STuple(shape.content or tuple(shape.elems)),)
        if callable(shape.trigger):
            return (shape.trigger,)
        if shape.trigger is not None:
            raise Unsupported("hook of an existing typed list")
        return (None,)


class Uids(Field):
    def __init__(self):
        super().__init__(CaseInsensitiveDict)

    def facts(self, ctx, owner, term):
        a = Val.a(term)
        return [OWNER(a) == ctx.at(ctx.addr(owner)), OWNFIELD(a) == field_id('_uids')]

    def attach(self, ctx, owner, term):
        ctx.list_shapes[term.get_id()] = self

    def content_facts(self, ctx, v, c):
        pass

    def value_facts(self, ctx, v, el):
        if isinstance(el, SV) and ctx.ctor(el.t) is None and el.t.get_id() not in ctx.typefacts:
            ctx.narrow(el.t, [str])


STR, OPTSTR = Field(str), Field(str, NONE)
ANY_REAL = Field(NUM)
UIDS = Uids()
_common = {'_tags': ListOf('_tags', str), '_uids': UIDS}
_object = dict(_common, notes=OPTSTR, _name=STR,
               _file_links=ListOf('_file_links', FileLink))
_template = dict(_common, name=STR, description=OPTSTR)


def pairlist(name, cls):
    return ListOf(name, tuple, content=(cls, LinkByUID, list, tuple), trigger=True)


_attr_lists = {'_conditions': ListOf('_conditions', Condition, trigger=True),
               '_parameters': ListOf('_parameters', Parameter, trigger=True)}
_props = {'_properties': ListOf('_properties', Property, trigger=True)}
_quant = {f: Field(REALS, NONE) for f in ('_mass_fraction', '_volume_fraction',
                                          '_number_fraction', '_absolute_quantity')}
_attr = dict(name=STR, notes=OPTSTR, _value=Field(VALUES, NONE), _origin=Field(Origin),
             _file_links=ListOf('_file_links', FileLink))
_tprops = {'_properties': pairlist('_properties', PropertyTemplate)}
_tconds = {'_conditions': pairlist('_conditions', ConditionTemplate)}
_tpars = {'_parameters': pairlist('_parameters', ParameterTemplate)}


class StrSet(Field):
    """A private set of strings."""

    def __init__(self, name):
        super().__init__(set)
        self.name = name

    def facts(self, ctx, owner, term):
        a = Val.a(term)
        return [OWNER(a) == ctx.at(ctx.addr(owner)), OWNFIELD(a) == field_id(self.name)]

    def attach(self, ctx, owner, term):
        ctx.list_shapes[term.get_id()] = self

    def content_facts(self, ctx, v, c):
        k = z3.Const('k!strset', Val)
        ctx.assume(z3.ForAll([k], z3.Implies(c.dom[k], Val.is_str(k)), patterns=[c.dom[k]]))


class StrMap(Field):
    """A private dict from strings to numbers."""

    def __init__(self, name, values, optional=False, anykeys=False):
        super().__init__(dict, *([NONE] if optional else []))
        self.name, self.values, self.anykeys = name, values, anykeys

    def facts(self, ctx, owner, term):
        a = Val.a(term)
        own = z3.And(OWNER(a) == ctx.at(ctx.addr(owner)), OWNFIELD(a) == field_id(self.name))
        return [z3.Implies(Val.is_ref(term), own)] if not self.anykeys else []

    def attach(self, ctx, owner, term):
        ctx.list_shapes[term.get_id()] = self

    def content_facts(self, ctx, v, c):
        if self.anykeys:
            return
        k = z3.Const('k!strmap', Val)
        ctx.assume(z3.ForAll([k], z3.Implies(c.dom[k], Val.is_str(k)), patterns=[c.dom[k]]))

    def value_facts(self, ctx, v, el):
        if isinstance(el, SV) and ctx.ctor(el.t) is None and el.t.get_id() not in ctx.typefacts:
            ctx.narrow(el.t, self.values)


def attr_template(cls):
    return dict(_template, _bounds=Field(BOUNDS))


TABLE = {
    LinkByUID: dict(scope=STR, id=STR),
    FileLink: dict(filename=STR, url=STR),
    PerformedSource: dict(_performed_by=OPTSTR, _performed_date=OPTSTR),
    RealBounds: dict(_default_units=STR, _lower_bound=Finite(float),
                     _upper_bound=Finite(float)),
    IntegerBounds: dict(_lower_bound=Field(int), _upper_bound=Field(int)),
    CategoricalBounds: dict(_categories=StrSet('_categories')),
    CompositionBounds: dict(_components=StrSet('_components')),
    MolecularStructureBounds: dict(),
    NominalReal: dict(_units=STR, nominal=Field(float, int)),
    NormalReal: dict(_units=STR, mean=Field(float, int), std=Field(float, int)),
    UniformReal: dict(_units=STR, lower_bound=Field(float, int), upper_bound=Field(float, int)),
    NominalInteger: dict(_nominal=Field(int)),
    UniformInteger: dict(_lower_bound=Field(int), _upper_bound=Field(int)),
    NominalCategorical: dict(_category=OPTSTR),
    DiscreteCategorical: dict(_probabilities=StrMap('_probabilities', (int, float), optional=True)),
    NominalComposition: dict(_quantities=StrMap('_quantities', (int, float), anykeys=True)),
    EmpiricalFormula: dict(_formula=OPTSTR),
    Smiles: dict(_smiles=OPTSTR),
    InChI: dict(_inchi=OPTSTR),
    Property: dict(_attr, _template=Field(PropertyTemplate, LinkByUID, NONE)),
    Condition: dict(_attr, _template=Field(ConditionTemplate, LinkByUID, NONE)),
    Parameter: dict(_attr, _template=Field(ParameterTemplate, LinkByUID, NONE)),
    PropertyAndConditions: dict(_property=Field(Property),
                                _conditions=ListOf('_conditions', Condition)),
    PropertyTemplate: attr_template(PropertyTemplate),
    ConditionTemplate: attr_template(ConditionTemplate),
    ParameterTemplate: attr_template(ParameterTemplate),
    MaterialTemplate: dict(_template, **_tprops),
    MeasurementTemplate: dict(_template, **_tprops, **_tconds, **_tpars),
    ProcessTemplate: dict(_template, **_tconds, **_tpars,
                          _allowed_names=ListOf('_allowed_names', str),
                          _allowed_labels=ListOf('_allowed_labels', str)),
    MaterialSpec: dict(_object, _template=Field(MaterialTemplate, LinkByUID, NONE),
                       _properties=ListOf('_properties', PropertyAndConditions, trigger=True),
                       _process=Field(ProcessSpec, LinkByUID, NONE)),
    ProcessSpec: dict(_object, _template=Field(ProcessTemplate, LinkByUID, NONE), **_attr_lists,
                      _output_material=Field(MaterialSpec, NONE),
                      _ingredients=ListOf('_ingredients', IngredientSpec, LinkByUID)),
    MeasurementSpec: dict(_object, _template=Field(MeasurementTemplate, LinkByUID, NONE),
                          **_attr_lists),
    IngredientSpec: dict(_object, **_quant, _material=Field(MaterialSpec, LinkByUID, NONE),
                         _process=Field(ProcessSpec, LinkByUID, NONE),
                         _labels=ListOf('_labels', str)),
    MaterialRun: dict(_object, _spec=Field(MaterialSpec, LinkByUID, NONE),
                      _process=Field(ProcessRun, LinkByUID, NONE),
                      _measurements=ListOf('_measurements', MeasurementRun, LinkByUID),
                      _sample_type=Field(SampleType)),
    ProcessRun: dict(_object, _spec=Field(ProcessSpec, LinkByUID, NONE), **_attr_lists,
                     _source=Field(PerformedSource, NONE),
                     _ingredients=ListOf('_ingredients', IngredientRun, LinkByUID),
                     _output_material=Field(MaterialRun, NONE)),
    MeasurementRun: dict(_object, _spec=Field(MeasurementSpec, LinkByUID, NONE), **_attr_lists,
                         **_props, _source=Field(PerformedSource, NONE),
                         _material=Field(MaterialRun, LinkByUID, NONE)),
    IngredientRun: dict(_object, _spec=Field(IngredientSpec, LinkByUID, NONE), **_quant,
                        _material=Field(MaterialRun, LinkByUID, NONE),
                        _process=Field(ProcessRun, LinkByUID, NONE),
                        _labels=ListOf('_labels', str, optional=True)),
    ValidList: dict(_content_type=ContentType('_content_type'),
                    _trigger=ContentType('_trigger')),
    CaseInsensitiveDict: dict(lowercase_dict=Field(dict)),
}
TABLE[IngredientRun]['_name'] = OPTSTR


class Shapes:
    def __init__(self, table, override=None):
        self.table = table
        self.override = override or {}

    def field(self, cls, f):
        o = self.override.get((cls, f))
        if o is not None:
            return o
        return self.table.get(cls, {}).get(f)

    def all_fields(self, cls):
        return list(self.table.get(cls, {}))

    def known(self, cls):
        return cls in self.table


SHAPES = Shapes(TABLE)


def samples():
    """One real instance of every class."""
    rb = RealBounds(0, 1, '')
    return [LinkByUID('a', 'b'), FileLink('a', 'b'), PerformedSource('a'), rb,
            IntegerBounds(0, 1), CategoricalBounds(['a']), CompositionBounds(['a']),
            MolecularStructureBounds(), NominalReal(1, ''), NormalReal(0, 1, ''),
            UniformReal(0, 1, ''), NominalInteger(1), UniformInteger(0, 1),
            NominalCategorical('a'), DiscreteCategorical({'a': 1}), NominalComposition({'a': 1}),
            EmpiricalFormula('H2'), Smiles('C'), InChI('InChI=1'), Property('a'), Condition('a'),
            Parameter('a'), PropertyAndConditions(Property('a')),
            PropertyTemplate('a', bounds=rb), ConditionTemplate('a', bounds=rb),
            ParameterTemplate('a', bounds=rb), MaterialTemplate('a'), MeasurementTemplate('a'),
            ProcessTemplate('a'), MaterialSpec('a'), ProcessSpec('a'), MeasurementSpec('a'),
            IngredientSpec('a'), MaterialRun('a'), ProcessRun('a'), MeasurementRun('a'),
            IngredientRun(), ValidList([]), CaseInsensitiveDict()]


def drift():
    """Differences between the table and the fields real instances have."""
    out = []
    for o in samples():
        cls = type(o)
        have, want = set(vars(o)), set(TABLE[cls])
        for f in sorted(have ^ want):
            out.append(f"{cls.__name__}.{f} {'is new' if f in have else 'is gone'}")
        for f in have & want:
            v = getattr(o, f) if f in vars(o) else None
            spec = TABLE[cls][f]
            if not isinstance(spec, ContentType) and type(v) not in spec.classes:
                out.append(f"{cls.__name__}.{f} holds a {type(v).__name__}")
    return out

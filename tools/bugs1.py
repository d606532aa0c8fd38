BUGS = {}
def bug(bid, prop, file, edits, demo, needs, breaks):
    BUGS[bid] = dict(prop=prop, file=file, edits=edits, demo=demo, needs=needs, breaks=breaks)

bug('b01', 'C01', 'gemd/json/gemd_json.py',
 [("            for (scope, uid) in obj.uids.items():\n                object_index[(scope.lower(), uid)] = obj\n",
   "            scope, uid = next(iter(obj.uids.items()), (None, None))\n            if scope is not None:\n                object_index[(scope.lower(), uid)] = obj\n")],
'''from gemd.json import dumps, loads
from gemd.entity.object import MaterialRun, ProcessRun
p = ProcessRun('p', uids={'z': '1', 'a': '2'})
m = MaterialRun('m', process=p)
n = loads(dumps(m))
assert isinstance(n.process, ProcessRun), type(n.process)
''', 'an object with two identifiers whose insertion order is not alphabetical, referenced by another object',
 'reading back indexes an object only under its alphabetically first identifier, so links through another one stay unresolved')
bug('b02', 'C02', 'gemd/util/impl.py',
 [("    if typ in [IngredientSpec.typ, MaterialRun.typ]:\n        return 4\n    if typ in [IngredientRun.typ, MeasurementRun.typ]:",
   "    if typ in [IngredientSpec.typ, MaterialRun.typ, MeasurementRun.typ]:\n        return 4\n    if typ in [IngredientRun.typ]:")],
'''from gemd.util import flatten
from gemd.entity.object import MaterialRun, MeasurementRun
m = MaterialRun('m', uids={'id': 'm'})
r = MeasurementRun('r', material=m, uids={'id': 'r'})
names = [x.name for x in flatten([r, m])]
assert names == ['m', 'r'], names
''', 'a traversal that meets a measurement run before its material run', 'a measurement can be listed before the material it refers to')
bug('b03', 'C03', 'gemd/util/impl.py',
 [("""        if cached_isinstance(this, BaseEntity):
            res.extend(func(this))

        if cached_isinstance(this, Mapping):
            queue.extend(this.keys())
""", """        if cached_isinstance(this, BaseEntity):
            res.extend(func(this))
        if cached_isinstance(this, Mapping):
            queue.extend(k for k in this if cached_isinstance(k, DictSerializable))
""")],
'''from gemd.util import recursive_flatmap
from gemd.entity.object import MaterialRun
m = MaterialRun('m')
assert recursive_flatmap({(m, 1): 2}, lambda x: [x]) == [m]
''', 'an object inside a tuple used as a mapping key', 'objects inside composite mapping keys are not visited')
bug('b04', 'C04', 'gemd/entity/object/ingredient_run.py',
 [("        if isinstance(self._process, ProcessRun):\n            # This could", "        if isinstance(self._process, ProcessRun) and self._process is not process:\n            # This could")],
'''from gemd.entity.object import IngredientRun, ProcessRun
p = ProcessRun('p')
i = IngredientRun(process=p)
i.process = p
assert len(p.ingredients) == 1, len(p.ingredients)
''', 'assigning the same process twice', 'the ingredient is listed twice')
bug('b05', 'C05', 'gemd/entity/valid_list.py',
 [("        self._validate(value)\n        if self._trigger is not None:\n            result = self._trigger(value)\n            if result is not None:\n                value = result\n        super().append(value)",
   "        if value not in self:\n            self._validate(value)\n        if self._trigger is not None:\n            result = self._trigger(value)\n            if result is not None:\n                value = result\n        super().append(value)")],
'''from gemd.entity.valid_list import ValidList
x = ValidList([1], int)
try:
    x.append(1.0)
except TypeError:
    pass
assert [type(e) for e in x] == [int], x
''', 'a wrong-typed element that equals one already in the list', 'the wrong-typed element is stored')
bug('b06', 'C06', 'gemd/entity/case_insensitive_dict.py',
 [("        result = super().popitem()\n        del self.lowercase_dict[result[0].lower()]",
   "        result = super().popitem()\n        self.lowercase_dict.pop(result[0], None)")],
'''from gemd.entity.case_insensitive_dict import CaseInsensitiveDict
d = CaseInsensitiveDict({'My_ID': '1'})
d.popitem()
assert 'my_id' not in d
d['my_id'] = '2'
''', 'popitem of a scope that is not all lower case', 'the popped scope still counts as present')
bug('b07', 'C07', 'gemd/entity/bounds/composition_bounds.py',
 [("        if not isinstance(bounds, CompositionBounds):\n            return False\n",
   "        if not isinstance(bounds, CompositionBounds) or not bounds.components:\n            return False\n")],
'''from gemd.entity.bounds import CompositionBounds
b = CompositionBounds({'a'})
assert b.contains(CompositionBounds())
''', 'containment of bounds without components', 'empty bounds are no longer contained in anything')
bug('b08', 'C08', 'gemd/entity/bounds/real_bounds.py',
 [("            if bnd_hi > upper:", "            elif bnd_hi > upper:")],
'''from gemd.entity.bounds import RealBounds
u = RealBounds(0, 1, 'm').union(RealBounds(-5, 5, 'm'))
assert (u.lower_bound, u.upper_bound) == (-5, 5), u
''', 'an operand that extends the range on both sides', 'the union does not contain the operand')
bug('b09', 'C09', 'gemd/entity/value/uniform_integer.py',
 [("        if self._upper_bound is not None:", "        if self._upper_bound:")],
'''from gemd.entity.value import UniformInteger
v = UniformInteger(-5, 0)
try:
    v.lower_bound = 3
except ValueError:
    pass
assert v.lower_bound <= v.upper_bound, (v.lower_bound, v.upper_bound)
''', 'an upper bound of zero and a later assignment of the lower bound', 'the range can be reversed')
bug('b10', 'C10', 'gemd/entity/object/has_template_check_generator.py',
 [("        def template_check(x: attr):", "        template = self.template\n\n        def template_check(x: attr):"),
  ("isinstance(self.template, cls)", "isinstance(template, cls)"),
  ("validate(self.template, x)", "validate(template, x)")],
'''from gemd.entity.attribute import Parameter
from gemd.entity.object import ProcessSpec
from gemd.entity.template import ParameterTemplate, ProcessTemplate
from gemd.entity.bounds import IntegerBounds
from gemd.entity.value import NominalInteger
from gemd.entity.bounds_validation import validation_level, WarningLevel
a = ParameterTemplate('a', bounds=IntegerBounds(0, 9))
p = ProcessSpec('p')
p.template = ProcessTemplate('t', parameters=[[a, IntegerBounds(0, 3)]])
with validation_level(WarningLevel.FATAL):
    try:
        p.parameters.append(Parameter('x', template=a, value=NominalInteger(5)))
    except ValueError:
        pass
assert len(p.parameters) == 0
''', 'an object whose template is assigned after its attribute list was created', 'additions are checked against the template the object had earlier')
bug('b11', 'C11', 'gemd/entity/bounds_validation.py',
 [("    BOUNDS_VALIDATION = WarningLevel(level)\n", "    BOUNDS_VALIDATION = level\n    WarningLevel(level)\n")],
'''from gemd.entity import bounds_validation as b
try:
    b.set_validation_level(7)
except ValueError:
    pass
assert b.get_validation_level() == b.WarningLevel.WARNING, b.get_validation_level()
''', 'a level that does not exist', 'the rejected level stays in force')
bug('b12', 'C12', 'gemd/entity/object/has_quantities.py',
 [("                if dimensionless.contains(absolute_quantity):", "                elif dimensionless.contains(absolute_quantity) \\\n                        and absolute_quantity.units == dimensionless.default_units:")],
'''from gemd.entity.object import IngredientRun
from gemd.entity.value import NominalReal
from gemd.entity.bounds_validation import validation_level, WarningLevel
i = IngredientRun()
with validation_level(WarningLevel.FATAL):
    try:
        i.absolute_quantity = NominalReal(3, 'percent')
    except ValueError:
        pass
assert i.absolute_quantity is None
''', 'a dimensionless unit other than the empty one', 'a dimensionless absolute quantity is accepted')
bug('b13', 'C13', 'gemd/entity/base_entity.py',
 [("        if (scope is None) or (allow_fallback and scope not in self.uids):", "        if scope is None or (allow_fallback and scope not in self.uids.keys()):")],
'''from gemd.entity.object import ProcessRun
p = ProcessRun('p', uids={'first': '1', 'My_ID': '2'})
l = p.to_link('my_id', allow_fallback=True)
assert l.id == '2', l
''', 'a requested scope in another spelling, with falling back allowed, that is not the first identifier', 'the link carries another identifier than the requested one')
bug('b14', 'C14', 'gemd/util/impl.py',
 [("        new = {_substitute(k, sub, applies, visited): _substitute(v, sub, applies, visited)\n               for k, v in replacement.items()}",
   "        new = {_substitute(k, sub, applies, visited) if applies(k) else k:\n               _substitute(v, sub, applies, visited) for k, v in replacement.items()}")],
'''from gemd.util import substitute_links
from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.object import ProcessRun
p = ProcessRun('p', uids={'id': 'p'})
d = substitute_links({(p, 1): 2})
assert isinstance(list(d)[0][0], LinkByUID)
''', 'an object inside a tuple used as a mapping key', 'objects inside composite keys are not replaced')
bug('b15', 'C15', 'gemd/units/impl.py',
 [("    get_base_units.cache_clear()\n", "")],
'''import os, tempfile
from gemd import units
from gemd.units import impl
text = impl.DEFAULT_FILE.read_text(encoding='utf8')
with tempfile.TemporaryDirectory() as d:
    open(os.path.join(d, impl.DEFAULT_CONSTANTS.name), 'w', encoding='utf8').write(impl.DEFAULT_CONSTANTS.read_text(encoding='utf8'))
    got = []
    try:
        for k in (2, 3):
            f = os.path.join(d, 'defs%d.txt' % k)
            open(f, 'w', encoding='utf8').write(text + '\\nzorkmid = %d * meter\\n' % k)
            units.change_definitions_file(f)
            got.append(units.get_base_units('zorkmid')[1])
    finally:
        units.change_definitions_file()
assert got == [2, 3], got
''', 'asking for the base units of a unit before and after its definition changes', 'base units come from the superseded definitions')
bug('b16', 'C16', 'gemd/enumeration/base_enumeration.py',
 [("str.lower(val).strip()", "str.lower(val).strip(' ')")],
'''from gemd.enumeration import Origin
assert Origin.from_str('measured\\t') is Origin.MEASURED
''', 'surrounding blanks that are not spaces', 'the name is not recognised')
bug('b17', 'C17', 'gemd/builders/impl.py',
 [("    if number_fraction is not None:", "    if number_fraction:")],
'''from gemd.builders.impl import add_edge, make_node
i = add_edge(make_node('a'), make_node('b'), number_fraction=0)
assert i.number_fraction is not None and i.number_fraction.nominal == 0
''', 'a number fraction of zero', 'a quantity of zero is dropped')
bug('b18', 'C18', 'gemd/entity/dict_serializable.py',
 [("            if typ in cls._class and not issubclass(cls, cls._class.get(typ)):", "            previous = cls._class.get(typ)\n            cls._class[typ] = cls\n            if previous is not None and not issubclass(cls, previous):"),
  ("            cls.typ = typ\n            cls._class[typ] = cls\n", "            cls.typ = typ\n")],
'''from gemd.entity.dict_serializable import DictSerializable
from gemd.entity.bounds import IntegerBounds
try:
    class Other(DictSerializable, typ='integer_bounds'):
        pass
except ValueError:
    pass
assert DictSerializable.class_mapping['integer_bounds'] is IntegerBounds
''', 'a rejected attempt to take over a type name', 'the rejected class owns the type name afterwards')
bug('b19', 'C19', 'gemd/entity/util.py',
 [("            seen[id(spec)] = IngredientRun(spec=spec)\n            seen[id(spec)].material = crawler(spec.material) if spec.material else None",
   "            seen[id(spec)] = IngredientRun(spec=spec)\n            seen[id(spec)].material = seen.get(spec.name) or crawler(spec.material) if spec.material else None\n            seen[spec.name] = seen[id(spec)].material")],
'''from gemd.entity.util import make_instance
from gemd.entity.object import *
p, q = ProcessSpec('p'), ProcessSpec('q')
a, b, mid = MaterialSpec('a'), MaterialSpec('b'), MaterialSpec('mid', process=q)
out = MaterialSpec('out', process=p)
IngredientSpec('base', material=a, process=q)
IngredientSpec('base', material=b, process=p)
IngredientSpec('mid', material=mid, process=p)
run = make_instance(out)
for i in run.process.ingredients:
    assert i.material.spec is i.spec.material
    for j in i.material.process.ingredients if i.material.process else []:
        assert j.material.spec is j.spec.material
''', 'two ingredients of the same name in different processes', 'the second ingredient gets the material of the first')
bug('b20', 'C20', 'gemd/entity/base_entity.py',
 [("        if this_dict.keys() != that_dict.keys():", "        if len(this_dict) != len(that_dict):")],
'''import itertools
from gemd.entity.object import *
from gemd.entity.template import *
from gemd.entity.bounds import IntegerBounds
things = [c('x') for c in (ProcessRun, ProcessSpec, MaterialRun, MaterialSpec, MeasurementRun, MeasurementSpec,
                           IngredientSpec, ProcessTemplate, MaterialTemplate, MeasurementTemplate)]
things += [c('x', bounds=IntegerBounds(0, 1)) for c in (PropertyTemplate, ConditionTemplate, ParameterTemplate)]
things += [IngredientRun()]
for a, b in itertools.combinations(things, 2):
    assert (a == b) is False and (b == a) is False
''', 'objects of two classes with the same number of different fields', 'comparing them raises instead of giving false')

BUGS = {}
def bug(bid, prop, file, edits, demo, needs, breaks):
    BUGS[bid] = dict(prop=prop, file=file, edits=edits, demo=demo, needs=needs, breaks=breaks)

bug('b21', 'C09', 'gemd/entity/bounds/categorical_bounds.py',
 [("            result = set(categories)\n        else:", "            result = categories if type(categories) is set else set(categories)\n        else:")],
'''from gemd.entity.bounds import CategoricalBounds
s = {'a'}
b = CategoricalBounds(s)
s.add(3)
assert b.categories == {'a'}, b.categories
''', 'the set given as categories is changed afterwards', 'bounds share the set they were given, so they can come to hold non-text categories')
bug('b22', 'C20', 'gemd/entity/object/process_spec.py',
 [("base['ingredients'] = self.ingredients", "base['ingredients'] = self.ingredients[:3]")],
'''from gemd.entity.object import IngredientSpec, MaterialSpec, ProcessSpec
def make(last):
    p = ProcessSpec('p')
    for n in ('a', 'b', 'c', last):
        IngredientSpec(n, process=p)
    return p
assert make('d') == make('d')
assert not (make('d') == make('e'))
''', 'process specs whose ingredients differ only beyond the third', 'different processes compare equal')
bug('b23', 'C05', 'gemd/entity/setters.py',
 [("        return ValidList(obj, typ, trigger)\n    else:", "        return obj if type(obj) is ValidList and trigger is None and obj else ValidList(obj, typ, trigger)\n    else:")],
'''from gemd.entity.object import ProcessSpec
from gemd.entity.valid_list import ValidList
mine = ValidList([1], int)
try:
    p = ProcessSpec('p', tags=mine)
except TypeError:
    pass
else:
    assert all(type(t) is str for t in p.tags), p.tags
''', 'a list field given a typed list of another type', 'wrong-typed elements are stored because the given typed list is kept as it is')

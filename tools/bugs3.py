BUGS = {}
def bug(bid, prop, file, edits, demo, needs, breaks):
    BUGS[bid] = dict(prop=prop, file=file, edits=edits, demo=demo, needs=needs, breaks=breaks)

bug('b24', 'C13', 'gemd/entity/link_by_uid.py',
 [("            return len(other) == 2 and (self.scope, self.id) == other", "            return (self.scope, self.id) == other[:2]")],
'''from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.object import ProcessSpec
p = ProcessSpec('p', uids={'a': '1'})
l = LinkByUID('a', '1')
assert l == ('a', '1') and p == ('a', '1')
assert (l == ('a', '1', '2')) == (p == ('a', '1', '2')), 'link and object compare differently to the same tuple'
assert not l == ('a', '1', '2')
''', 'a tuple that starts with scope and identifier but is longer', 'a link equals tuples that are not its pair')
bug('b25', 'C18', 'gemd/json/gemd_json.py',
 [("        if typ not in clazz_index:", "        if typ.lower() not in clazz_index:")],
'''from gemd.json import GEMDJson
try:
    GEMDJson().loads('{"object": {"type": "Property_Template", "name": "x"}, "context": []}')
except TypeError:
    pass
else:
    raise AssertionError('accepted')
''', 'a type name in another case', 'an unknown type name raises a KeyError instead of the TypeError')
bug('b26', 'C01', 'gemd/json/gemd_json.py',
 [("            if (obj.scope.lower(), obj.id) in object_index:\n                obj = object_index[(obj.scope.lower(), obj.id)]",
   "            if (obj.scope.lower(), obj.id.lower()) in object_index:\n                obj = object_index[(obj.scope.lower(), obj.id.lower())]")],
'''from gemd.json import dumps, loads
from gemd.entity.object import MaterialRun, ProcessRun
p = ProcessRun('p', uids={'s': 'ABC'})
m = loads(dumps(MaterialRun('m', process=p)))
assert isinstance(m.process, ProcessRun), type(m.process)
''', 'an identifier with capital letters on an object that others refer to', 'references through identifiers with capitals stay unresolved')

import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
p("C01","JSON round trip preserves every object, value and reference",
 "Writing any structure of GEMD objects (and plain JSON data around them) to JSON and reading it back yields an equal structure: every object keeps its type and every stored field value, including the exact kind of plain scalars (true, 1 and 1.0 stay distinct). An entity referenced from several places is read back as one entity (plain data and value objects may be read back as equal copies), forward and backward links are re-established, and writing changes nothing in the original other than giving an identifier to objects that had none.",
 ["inputs","configurations"],"every object class, every field combination and every finite graph of objects, including shared and cyclic references, link placeholders and nested containers",
 "tests round-trip a handful of fixed graphs; the guarantee is over all classes, field values and graph shapes",
 ["gemd/json/gemd_json.py","gemd/json/gemd_encoder.py","gemd/entity/dict_serializable.py","gemd/util/impl.py","gemd/entity"],
 [("dumps/loads","gemd/json/gemd_json.py"),("object hook","gemd/json/gemd_json.py:GEMDJson._load_and_index"),("as_dict/from_dict","gemd/entity/dict_serializable.py"),("constructors of every class","gemd/entity")],
 observe=["gemd.json.dumps","gemd.json.loads"])
p("C02","Flattened output is complete, duplicate-free and dependency-ordered",
 "Flattening (and hence the context of serialized output) lists every object reachable from the input exactly once, each with at least one identifier and with all references to other objects replaced by links; identifiers given in the input are assumed to be unique to one object. Every object appears after all the objects its fields refer to, whatever the shape of the graph, so a single forward pass can resolve every link.",
 ["inputs"],"every finite object graph, every pair of object kinds that can reference each other",
 "tests check the order of a few example graphs; a wrong rank for one pair of kinds, or a missed object, only shows on graphs containing that pair",
 ["gemd/util/impl.py","gemd/entity/object","gemd/entity/template"],
 [("flatten","gemd/util/impl.py:flatten"),("writable_sort_order","gemd/util/impl.py:writable_sort_order"),("all_dependencies","gemd/entity/base_entity.py")],
 observe=["gemd.util.flatten","gemd.util.writable_sort_order"])
p("C03","Graph traversal reaches every entity exactly once",
 "Applying a function over a structure calls it exactly once for each distinct object reachable through fields, lists, tuples, sets and mappings (keys and values), and never for anything else, regardless of sharing, cycles among objects, or containers that cannot be hashed (containers that contain themselves are out of scope). Two-way links are followed through their writable side only, unless asked otherwise. Automatic identifier assignment therefore gives an identifier to precisely the reachable objects that have none and never alters an existing one, and the index built from a structure maps every identifier of every reachable object to that object.",
 ["inputs"],"every finite object graph and every nesting of containers",
 "tests use small acyclic examples; completeness over all graphs is a loop-invariant argument",
 ["gemd/util/impl.py"],
 [("recursive_foreach","gemd/util/impl.py:recursive_foreach"),("recursive_flatmap","gemd/util/impl.py:recursive_flatmap"),("set_uuids","gemd/util/impl.py:set_uuids"),("make_index","gemd/util/impl.py:make_index")],
 observe=["gemd.util.recursive_foreach","gemd.util.recursive_flatmap","gemd.util.make_index","gemd.util.set_uuids"])
p("C04","Two-way links between objects always agree",
 "After any sequence of assignments through the writable side of a two-way link, an ingredient is listed exactly once in the ingredients of the process it names and in no other process, a measurement likewise in the measurements of its material, and a process's output material is always a material that names that process (the most recent one assigned). An assignment that is rejected leaves both sides of every link exactly as they were, and objects that merely compare equal to the one being changed are never affected.",
 ["histories","inputs"],"every sequence of assignments (objects, link placeholders, nothing, or wrong-typed values) on every set of objects, including equal-but-distinct ones",
 "tests try a few reassignments of distinct objects; the invariant is over all assignment histories, including rejected ones and equal twins",
 ["gemd/entity/object/ingredient_run.py","gemd/entity/object/ingredient_spec.py","gemd/entity/object/measurement_run.py","gemd/entity/object/material_run.py","gemd/entity/object/material_spec.py","gemd/entity/object/process_run.py","gemd/entity/object/process_spec.py"],
 [("process/material setters","gemd/entity/object/*.py")],
 state=[("ingredients / measurements / output material","read-only back links","gemd/entity/object/process_run.py, process_spec.py, material_run.py")],
 observe=["ProcessRun.ingredients","ProcessSpec.ingredients","MaterialRun.measurements","ProcessRun.output_material"])
p("C05","Typed lists only ever hold what they were declared to hold",
 "Every list-valued field only ever contains elements of its declared types, after any sequence of list operations (construction from any iterable, append, extend, insert, item or slice assignment, in-place addition). An accepted operation stores exactly the given elements in the given order (each replaced by the list's hook result when it has one) and loses none; an operation containing a wrong-typed element raises and leaves the list unchanged.",
 ["inputs","histories"],"every iterable (including one-shot iterators), every element, index and every sequence of operations",
 "tests probe single operations with one good and one bad value",
 ["gemd/entity/valid_list.py","gemd/entity/setters.py"],
 [("ValidList","gemd/entity/valid_list.py"),("validate_list","gemd/entity/setters.py")],
 observe=["list-valued attributes of all entities"])
p("C06","Identifier maps are case-insensitive and never hold two spellings",
 "An identifier map behaves as a mapping from case-folded scope to value: after any sequence of operations, lookup, membership, deletion and default retrieval give the same answer for every spelling of a scope, and no two stored scopes differ only in case. An operation that would store a second spelling raises and leaves the map unchanged; iteration, length and lookup always agree; any string is usable as a scope.",
 ["histories","inputs"],"every sequence of map operations with every spelling of every key",
 "tests try a few operations on a few keys; the two internal views can drift apart only after particular sequences",
 ["gemd/entity/case_insensitive_dict.py","gemd/entity/base_entity.py"],
 [("CaseInsensitiveDict","gemd/entity/case_insensitive_dict.py")],
 state=[("lower-case index","maps folded key to stored key","gemd/entity/case_insensitive_dict.py")],
 observe=["entity.uids"])
p("C07","Bounds containment is exactly set inclusion",
 "One bounds contains another bounds (or a value) exactly when they are of the same kind and every point allowed by the second is allowed by the first, with real ranges compared after conversion to common units and never across incompatible units. Containment is therefore reflexive and transitive and never depends on the units either side happens to be written in; absence of a value is not contained, and anything that is neither bounds nor value is rejected with an error.",
 ["inputs"],"all bounds and values of all kinds, all endpoints, all category sets, all units",
 "tests compare a few sample ranges per kind",
 ["gemd/entity/bounds"],
 [("contains","gemd/entity/bounds/*.py"),("_convert_bounds","gemd/entity/bounds/real_bounds.py")],
 observe=["BaseBounds.contains"])
p("C08","Union and update give the smallest enclosing bounds",
 "The union of a bounds with any number of bounds or values of its kind is the smallest bounds of that kind containing all of them, expressed in the first one's units, in any order of arguments; updating makes the receiver equal to that union. No operand other than an updated receiver changes or shares state with the result, and arguments of another kind or with incompatible units raise and leave everything unchanged.",
 ["inputs"],"all bounds, any number and order of arguments, all units",
 "tests take unions of a couple of sample bounds",
 ["gemd/entity/bounds"],
 [("union/update","gemd/entity/bounds/*.py")],
 observe=["BaseBounds.union","BaseBounds.update"])
p("C09","Bounds and values are always well formed; values have minimal bounds",
 "A bounds or value can never be brought into an ill-formed state: bounds always have finite endpoints with lower not above upper, integer values are integral and ordered, category and component names are strings, probabilities sum to one, formulas use known elements, and a rejected assignment leaves the previous state. The numbers of a real value are only checked when it is built (a reversed uniform range is rejected), but a real value whose numbers cannot form bounds never yields ill-formed bounds: asking for its bounds raises. The bounds derived from a value (of magnitude within floating-point range) are the smallest that admit it, in the value's own units, and normalisation of textual values is idempotent and changes only the prefix.",
 ["inputs","histories"],"every constructor argument and every sequence of assignments",
 "tests check a few accepted and rejected arguments",
 ["gemd/entity/bounds","gemd/entity/value"],
 [("setters","gemd/entity/bounds/*.py, gemd/entity/value/*.py"),("_to_bounds","gemd/entity/value/*.py")],
 observe=["bounds and value constructors, attributes"])
p("C10","Template limits are enforced exactly as the validation level says",
 "At the strictest level no assignment of an attribute's value or template can leave an attribute whose value lies outside its attribute template's bounds, and no assignment or list operation can add to an object an attribute whose value is absent from or outside the (possibly narrowed) bounds its object template gives for that attribute's template; such assignments raise and change nothing. At the warning level the assignment succeeds and is logged, at the ignore level it succeeds silently, and at every level in-bounds assignments, and assignments whose template is only a link, succeed without complaint. (Limits are checked when the attribute is assigned or added; changing an object's template, or a template's bounds, afterwards does not recheck what is already there.)",
 ["inputs","configurations"],"every value, template, link, level and order of assigning value and template",
 "tests check a few combinations of level, template and value",
 ["gemd/entity/attribute/base_attribute.py","gemd/entity/object/has_template_check_generator.py","gemd/entity/template","gemd/entity/object"],
 [("_check","gemd/entity/attribute/base_attribute.py"),("template check","gemd/entity/object/has_template_check_generator.py"),("validate_*","gemd/entity/template/has_*_templates.py")],
 observe=["attribute value/template setters","object attribute lists"])
p("C11","Validation level is always restored",
 "Temporarily changing the validation level affects only the block it wraps: when the block is left, normally, by an exception, or by an early exit, the level in force before is back, for any nesting. Setting a level that does not exist is rejected and leaves the level unchanged.",
 ["histories","fault_sequences"],"every way of leaving the block, every nesting and every level",
 "tests leave the block normally",
 ["gemd/entity/bounds_validation.py"],
 [("validation_level","gemd/entity/bounds_validation.py")],
 state=[("global level","current validation level","gemd/entity/bounds_validation.py")],
 observe=["get_validation_level"])
p("C12","Ingredient quantities are checked against their physical limits",
 "A mass, volume or number fraction is accepted without complaint exactly when it is a dimensionless quantity lying between 0 and 1 in whatever dimensionless units it is written, and an absolute quantity exactly when it is non-negative and not dimensionless. Otherwise the strictest level raises and keeps the previous value, the warning level logs and stores, the ignore level stores silently; anything that is not a real-valued quantity is always rejected.",
 ["inputs","configurations"],"every quantity value, unit and validation level, for ingredient specs and runs",
 "tests check sample values mostly at one level",
 ["gemd/entity/object/has_quantities.py"],
 [("fraction check","gemd/entity/object/has_quantities.py:_check"),("absolute quantity setter","gemd/entity/object/has_quantities.py")],
 observe=["IngredientRun/IngredientSpec quantity attributes"])
p("C13","Links identify their objects",
 "A link made from an object always equals that object and carries a scope and identifier the object really has: the requested scope if present (in any spelling), otherwise an existing one only where falling back is allowed, and an error where it is not. Making a link alters the object only by adding an identifier when it has none and one was requested to be made. Comparison between an object and a link (or a scope/identifier pair) gives the same answer in both directions, and equal links hash alike.",
 ["inputs"],"every object, identifier map, scope and spelling",
 "tests use a few objects and scopes",
 ["gemd/entity/link_by_uid.py","gemd/entity/base_entity.py"],
 [("to_link","gemd/entity/base_entity.py"),("from_entity","gemd/entity/link_by_uid.py"),("__eq__","both")],
 observe=["to_link","LinkByUID.from_entity","=="])
p("C14","Substituting links for objects and back is lossless",
 "Replacing objects by links in a structure and then links by objects through an index of those objects restores the original: in place with the very same objects, in copies with objects of the same type, identifiers and written fields (the read-only back links of a copy only list what was copied). The copying form never modifies its input, and both forms replace every occurrence, at any depth and in list, tuple, mapping key and mapping value positions, leaving all other content (including its exact kind) unchanged; links without an index entry are left as they are.",
 ["inputs"],"every structure of containers and objects",
 "tests substitute within a few small structures",
 ["gemd/util/impl.py"],
 [("_substitute","gemd/util/impl.py"),("_substitute_inplace","gemd/util/impl.py")],
 observe=["substitute_links","substitute_objects"])
p("C15","Unit handling is consistent and always uses the current definitions",
 "Unit strings have one canonical form that parses to itself; conversion to the same unit is the identity, conversion between compatible units is order-preserving and invertible, and conversion between units of different kinds (including dimensionless versus count- or angle-like units) always raises. Changing the definitions takes effect for every later operation whatever was asked before, and a change, successful or failed, leaves the working directory as it was; a failed change leaves the previous definitions in force.",
 ["inputs","histories","fault_sequences"],"every unit expression, magnitude and sequence of definition changes, successful or failing",
 "tests convert sample units and change definitions once",
 ["gemd/units/impl.py"],
 [("convert_units","gemd/units/impl.py"),("parse_units","gemd/units/impl.py"),("change_definitions_file","gemd/units/impl.py")],
 state=[("unit registry and memo tables","current definitions","gemd/units/impl.py")],
 observe=["gemd.units"])
p("C16","Enumerated values resolve by name, synonym and case, uniquely",
 "Every enumeration accepts exactly the names and synonyms of its members, ignoring case and surrounding blanks, and always resolves them to the same single member; anything else is rejected by fields that require a member. Stored enumerated fields are always members, and a member reads back from its own text.",
 ["inputs","programs"],"every string and every enumeration definition",
 "tests look up a few strings in a few enumerations",
 ["gemd/enumeration"],
 [("from_str","gemd/enumeration/base_enumeration.py")],
 observe=["Origin","SampleType","origin and sample_type attributes"])
p("C17","Builders wire runs, specs and attributes consistently",
 "Building a node yields a material run whose process, specification and the specification's process are mutually linked and carry the given names and templates; connecting two nodes adds exactly one ingredient run and specification joining the input material to the output's process at both levels with the given quantities. An added measurement or attribute ends up once in the list of its kind on its target, and a value built from a plain number or text for given bounds is of the kind those bounds require, carries their units and keeps the given content.",
 ["inputs"],"every combination of arguments",
 "tests build a few examples",
 ["gemd/builders/impl.py"],
 [("make_node/add_edge/add_measurement/add_attribute/make_value","gemd/builders/impl.py")],
 observe=["gemd.builders"])
p("C18","Type names and classes correspond one to one",
 "Every serializable class has its own type name, written with each of its instances; reading data with that name always constructs that class from exactly the recognised fields, and unknown type names are rejected. A type name can only be taken over by a subclass of its current owner, and a failed attempt changes nothing.",
 ["inputs","programs"],"all classes, all type names, all later class definitions",
 "tests check the built-in classes once",
 ["gemd/entity/dict_serializable.py","gemd/json/gemd_json.py"],
 [("DictSerializableMeta","gemd/entity/dict_serializable.py"),("from_dict","gemd/entity/dict_serializable.py")],
 observe=["DictSerializable.class_mapping","from_dict"])
p("C19","Instantiating a specification mirrors its graph",
 "Creating runs from a specification yields exactly one run per specification reachable through processes, ingredients and ingredient materials, of the matching kind, referring to its specification and linked through their fields and ingredient lists exactly as the specifications are; the specifications themselves are unchanged. Anything that is not a specification is rejected.",
 ["inputs"],"every finite specification graph, including shared materials",
 "tests instantiate one example",
 ["gemd/entity/util.py"],
 [("make_instance","gemd/entity/util.py")],
 observe=["make_instance"])
p("C20","Object equality is an honest comparison",
 "Comparing two objects always terminates with true or false, is reflexive and symmetric, and is false whenever they differ in kind, identifiers or any stored scalar field, at any depth reachable through their references; lists are compared without regard to order (when one side's list is empty because that object was flattened, and the objects share identifiers, the list is not compared). Objects that are structural copies of one another compare equal, whatever the cycles in their graphs.",
 ["inputs"],"every pair of finite object graphs",
 "tests compare a few pairs",
 ["gemd/entity/base_entity.py","gemd/entity/dict_serializable.py"],
 [("_cached_equals","gemd/entity/base_entity.py"),("__eq__","gemd/entity/dict_serializable.py")],
 observe=["=="])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import sys
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))

"""C17: builders wire runs, specs and attributes consistently."""
import z3

from gemd.builders import impl
from gemd.entity.attribute import Condition, Parameter, Property, PropertyAndConditions
from gemd.entity.bounds import (CategoricalBounds, CompositionBounds, IntegerBounds,
                                MolecularStructureBounds, RealBounds)
from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.object import (IngredientRun, IngredientSpec, MaterialRun, MaterialSpec,
                                MeasurementRun, MeasurementSpec, ProcessRun, ProcessSpec)
from gemd.entity.template import (ConditionTemplate, MaterialTemplate, MeasurementTemplate,
                                  ParameterTemplate, ProcessTemplate, PropertyTemplate)
from gemd.entity.value import (EmpiricalFormula, InChI, NominalCategorical, NominalInteger,
                               NominalReal, Smiles, UniformReal)
from gemd.entity.value.base_value import BaseValue

from pyvc.unit import unit, outcome
from pyvc.values import *  # noqa: F401,F403
from pyvc.values import UNIVERSE, CSeq, I, SeqArr, Val, clsof

from . import c10
from . import regions as rg
from . import texts as tx
from . import unitmodel as um
from .common import eq_contract, instance, set_level
from .shapes import TABLE

NONE = type(None)
MADE = {RealBounds: NominalReal, IntegerBounds: NominalInteger,
        CategoricalBounds: NominalCategorical, CompositionBounds: EmpiricalFormula}


# --------------------------------------------------------------------------- make_value
def value_unit(cls):
    @unit('C17', f'make_value(value, {cls.__name__})', covers=['made', 'refused'])
    def u(ctx, interp):
        rg.install(ctx)
        v = ctx.any_value('value', [int, float, bool, str, NONE, list])
        b = ctx.obj(cls, 'bounds')
        if cls is RealBounds:
            um.stored(ctx, interp, b, 'default_units')
        if cls is MolecularStructureBounds:
            ctx.text_hook = tx.hook
        mark = rg.mark(ctx)
        kind, r = outcome(lambda: interp.call(impl.make_value, [v, b]))
        rg.pure(ctx, mark, 'make_value')
        if kind == 'raise':
            ctx.cover('refused')
            text = instance(interp, v, str)
            if cls is RealBounds:
                ctx.prove('a finite number is accepted', not instance(interp, v, (int, float)))
            elif cls in (CategoricalBounds, MolecularStructureBounds):
                ctx.prove('a text is accepted', not text)
            return
        ctx.cover('made')
        made(ctx, interp, cls, b, v, r)


def made(ctx, interp, cls, b, v, r):
    """r is a new value of the kind the bounds ask for, with their units and the given content."""
    t = ctx.lift(v)

    def kept(field):
        ctx.prove('it keeps the given content', ctx.lift(interp.getattr(r, field)) == t)
    if cls is MolecularStructureBounds:
        inchi = instance(interp, r, InChI)
        ctx.prove('a structure is made', inchi or instance(interp, r, Smiles))
        if instance(interp, v, str):
            ctx.prove('an InChI text gives an InChI', z3.PrefixOf(
                z3.StringVal('InChI='), tx.content(ctx, Val.s(t))) == inchi)
            kept('inchi' if inchi else 'smiles')
        return
    ctx.prove('it is of the kind the bounds require', instance(interp, r, MADE[cls]))
    if cls is RealBounds:
        ctx.prove('it carries the units of the bounds', ctx.lift(interp.getattr(r, 'units'))
                  == ctx.lift(interp.getattr(b, 'default_units')))
        same_number(ctx, interp, interp.getattr(r, 'nominal'), v)
    elif cls is IntegerBounds:
        same_number(ctx, interp, interp.getattr(r, 'nominal'), v)
    else:
        kept({CategoricalBounds: 'category', CompositionBounds: 'formula'}[cls])


def same_number(ctx, interp, x, v):
    if instance(interp, v, float) and instance(interp, x, float):
        ctx.prove('it keeps the given number', ctx.lift(x) == ctx.lift(v))
        return
    (k, t), (k2, t2) = interp.numeric_term(x), interp.numeric_term(v)
    ctx.prove('it keeps the given number', k in ('int', 'flt') and k2 in ('int', 'flt') and
              interp._real(k, t) == interp._real(k2, t2))


for _c in (RealBounds, IntegerBounds, CategoricalBounds, CompositionBounds,
           MolecularStructureBounds):
    value_unit(_c)


@unit('C17', 'make_value(value, no bounds)')
def u_nobounds(ctx, interp):
    v = ctx.any_value('value', [int, float, str, NONE])
    b = ctx.any_value('bounds', [int, str, NONE, LinkByUID, PropertyTemplate])
    kind, r = outcome(lambda: interp.call(impl.make_value, [v, b]))
    ctx.prove('anything but bounds is an error', kind == 'raise')


# --------------------------------------------------------------------------- make_node
@unit('C17', 'make_node')
def u_node(ctx, interp):
    name = ctx.any_value('name', [str])
    pname = ctx.any_value('process name', [str, NONE])
    pt = ctx.any_value('process template', [ProcessTemplate, NONE])
    mt = ctx.any_value('material template', [MaterialTemplate, NONE])
    mark = rg.mark(ctx)
    kw = {'process_name': pname, 'process_template': pt, 'material_template': mt}
    kind, mat = outcome(lambda: interp.call(impl.make_node, [name], kw))
    ctx.prove('a node is made', kind == 'ret')
    if kind != 'ret':
        return
    rg.pure(ctx, mark, 'make_node')

    def get(o, *path):
        for f in path:
            o = interp.getattr(o, f)
        return ctx.lift(o)
    ctx.prove('a material run', instance(interp, mat, MaterialRun))
    for path, cls in ((('process',), ProcessRun), (('spec',), MaterialSpec),
                      (('spec', 'process'), ProcessSpec)):
        x = mat
        for f in path:
            x = interp.getattr(x, f)
        ctx.prove(f'with a {".".join(path)}', instance(interp, x, cls))
    ctx.prove('the process makes the material', get(mat, 'process', 'output_material') == mat.t)
    ctx.prove('the specified process makes the specified material',
              get(mat, 'spec', 'process', 'output_material') == get(mat, 'spec'))
    ctx.prove("the process refers to the specification's process",
              get(mat, 'process', 'spec') == get(mat, 'spec', 'process'))
    ctx.prove('the material and its specification have the name', z3.And(
        get(mat, 'name') == name.t, get(mat, 'spec', 'name') == name.t))
    given = not interp.decide(interp.is_(pname, None))
    templ = not interp.decide(interp.is_(pt, None))
    want = pname.t if given else get(pt, 'name') if templ else name.t
    ctx.prove('the processes have the process name', z3.And(
        get(mat, 'process', 'name') == want, get(mat, 'spec', 'process', 'name') == want))
    ctx.prove('the specifications have the templates', z3.And(
        get(mat, 'spec', 'template') == ctx.lift(mt),
        get(mat, 'spec', 'process', 'template') == ctx.lift(pt)))
    for o in (('process',), ('spec', 'process')):
        x = mat
        for f in o:
            x = interp.getattr(x, f)
        n, _ = ctx.seq_terms(interp.seq_content(interp.getattr(x, 'ingredients')))
        ctx.prove('there are no ingredients yet', n == 0)
    n, _ = ctx.seq_terms(interp.seq_content(interp.getattr(mat, 'measurements')))
    ctx.prove('and no measurements', n == 0)


# --------------------------------------------------------------------------- add_edge
FRACTIONS = ('mass_fraction', 'number_fraction', 'volume_fraction')


@unit('C17', 'add_edge', covers=['joined', 'refused'])
def u_edge(ctx, interp):
    rg.install(ctx)
    ctx.func_contracts.update(eq_contract())
    src, dst = ctx.obj(MaterialRun, 'input'), ctx.obj(MaterialRun, 'output')
    name = ctx.any_value('name', [str, NONE])
    dspec = interp.getattr(dst, '_spec')
    run = interp.getattr(dst, '_process')
    complete = instance(interp, dspec, MaterialSpec)
    spec = interp.getattr(dspec, '_process') if complete else None

    def listed(p, cls):
        if not instance(interp, p, cls):
            return None
        return ctx.seq_terms(interp.seq_content(interp.getattr(p, '_ingredients')))
    before = listed(run, ProcessRun), listed(spec, ProcessSpec)
    sspec = interp.getattr(src, '_spec')
    kind, r = outcome(lambda: interp.call(impl.add_edge, [src, dst], {'name': name}))
    if kind == 'raise':
        ctx.cover('refused')
        links = [complete and instance(interp, spec, (ProcessSpec, LinkByUID)),
                 instance(interp, run, (ProcessRun, LinkByUID)),
                 instance(interp, sspec, (MaterialSpec, LinkByUID))]
        ctx.prove('only nodes without specifications or processes cannot be joined',
                  not all(links))
        for was, now in zip(before, (listed(run, ProcessRun), listed(spec, ProcessSpec))):
            if was:
                ctx.prove('... and nothing is added', now[0] == was[0])
        return
    ctx.cover('joined')
    ing = interp.getattr(r, 'spec')
    ctx.prove('an ingredient run is made', instance(interp, r, IngredientRun))
    ctx.prove('with a specification', instance(interp, ing, IngredientSpec))

    def get(o, f):
        return ctx.lift(interp.getattr(o, f))
    ctx.prove('the run joins the input to the process of the output', z3.And(
        get(r, 'material') == src.t, get(r, 'process') == ctx.lift(run)))
    ctx.prove('the specification joins their specifications', z3.And(
        get(ing, 'material') == ctx.lift(sspec), get(ing, 'process') == ctx.lift(spec)))
    want = get(src, 'name') if interp.decide(interp.is_(name, None)) else name.t
    ctx.prove('both have the name', z3.And(get(ing, 'name') == want, get(r, 'name') == want))
    for was, now, x in zip(before, (listed(run, ProcessRun), listed(spec, ProcessSpec)), (r, ing)):
        if was:
            i = ctx.fresh(I, 'i')
            ctx.prove('exactly one ingredient is added', z3.And(
                now[0] == was[0] + 1, now[1][was[0]] == x.t,
                z3.Implies(z3.And(0 <= i, i < was[0]), now[1][i] == was[1][i])))
    for f in FRACTIONS + ('absolute_quantity',):
        ctx.prove('no quantity but what is given', interp.decide(
            interp.is_(interp.getattr(r, f), None)))


def edge(ctx, interp):
    """Two nodes that can be joined."""
    src, dst = ctx.obj(MaterialRun, 'input'), ctx.obj(MaterialRun, 'output')
    for o, f, c in ((src, '_spec', MaterialSpec), (dst, '_spec', MaterialSpec),
                    (dst, '_process', ProcessRun)):
        ctx.narrow(ctx.lift(interp.getattr(o, f)), [c])
    ctx.narrow(ctx.lift(interp.getattr(interp.getattr(dst, '_spec'), '_process')), [ProcessSpec])
    return src, dst


def quantity_unit(field):
    absolute = field == 'absolute_quantity'

    @unit('C17', f'add_edge({field}=...)', covers=['number', 'value', 'refused'])
    def u(ctx, interp):
        rg.install(ctx)
        ctx.func_contracts.update(eq_contract())
        c10.install(ctx)
        set_level(ctx, interp)
        src, dst = edge(ctx, interp)
        v = ctx.any_value('quantity', [int, float, NominalReal, UniformReal, str])
        kw = {field: v}
        units = None
        if absolute:
            units = ctx.any_value('units', [str, NONE])
            kw['absolute_units'] = units
        plain = instance(interp, v, (int, float))
        kind, r = outcome(lambda: interp.call(impl.add_edge, [src, dst], kw))
        if kind == 'raise':
            ctx.cover('refused')
            return
        for f in FRACTIONS + ('absolute_quantity',):
            if f != field:
                ctx.prove('no other quantity is set', interp.decide(
                    interp.is_(interp.getattr(r, f), None)))
        q = interp.getattr(r, field)
        none = units is None or interp.decide(interp.is_(units, None))
        if not plain:
            ctx.cover('value')
            ctx.prove('a given value is kept', ctx.lift(q) == v.t)
            ctx.prove('units are only for plain numbers', none)
            return
        ctx.cover('number')
        ctx.prove('a number becomes a nominal value', instance(interp, q, NominalReal))
        same_number(ctx, interp, interp.getattr(q, 'nominal'), v)
        if absolute:
            ctx.prove('a plain number needs units', not none)
        want = ctx.strlit('') if not absolute else Val.s(ctx.lift(units))
        ctx.prove('in the given units', Val.s(ctx.lift(interp.getattr(q, 'units')))
                  == um.CANON(want))


for _f in FRACTIONS + ('absolute_quantity',):
    quantity_unit(_f)


# ------------------------------------------------------------------- attributes
ATTRS = {PropertyTemplate: Property, ConditionTemplate: Condition, ParameterTemplate: Parameter}


@unit('C17', 'make_attribute', covers=['given', 'plain', 'refused'])
def u_attribute(ctx, interp):
    c10.install(ctx)
    set_level(ctx, interp)
    calls = []

    def make_value(interp, args, kwargs):
        """The contract proved above: a new value for the bounds, or an error."""
        f = dict(zip(('value', 'bounds'), args), **kwargs)
        if ctx.choose(2):
            interp.raise_(ValueError)
        r = ctx.obj(NominalCategorical, 'made')
        calls.append((ctx.lift(f['value']), ctx.lift(f['bounds']), r.t))
        return r
    ctx.func_contracts[impl.make_value] = make_value
    t = ctx.any_value('template', list(ATTRS) + [LinkByUID, NONE, MaterialTemplate])
    v = ctx.any_value('value', [NominalReal, EmpiricalFormula, int, float, str, NONE])
    given = instance(interp, v, BaseValue)
    mark = rg.mark(ctx)
    kind, r = outcome(lambda: interp.call(impl.make_attribute, [t, v]))
    rg.pure(ctx, mark, 'make_attribute')
    cls = next((a for c, a in ATTRS.items() if instance(interp, t, c)), None)
    if kind == 'raise':
        ctx.cover('refused')
        return
    ctx.prove('only templates make attributes', cls is not None)
    ctx.prove('the attribute is of the kind of the template', instance(interp, r, cls))

    def get(o, f):
        return ctx.lift(interp.getattr(o, f))
    ctx.prove('it has the template and its name', z3.And(get(r, 'template') == t.t,
                                                         get(r, 'name') == get(t, 'name')))
    if given:
        ctx.cover('given')
        ctx.prove('it has the given value', z3.And(get(r, 'value') == v.t, not calls))
    else:
        ctx.cover('plain')
        ctx.prove('it has the value made for the bounds of the template', z3.And(
            calls[0][0] == v.t, calls[0][1] == get(t, 'bounds'), get(r, 'value') == calls[0][2])
            if len(calls) == 1 else False)


LISTS = {Property: '_properties', Condition: '_conditions', Parameter: '_parameters'}
TARGETS = (MaterialSpec, ProcessSpec, ProcessRun, MeasurementSpec, MeasurementRun, MaterialRun,
           IngredientSpec)


def add_unit(target, attr):
    covers = ['refused']
    if LISTS[attr] in TABLE[target] or target is MaterialSpec and attr is Condition:
        covers.append('added')

    @unit('C17', f'add_attribute({target.__name__}, {attr.__name__})', covers=covers)
    def u(ctx, interp):
        for has, f, _ in c10.VALIDATE.values():
            ctx.func_contracts[has.__dict__[f]] = c10.validates
        set_level(ctx, interp)
        asked = []

        def make_attribute(interp, args, kwargs):
            """The contract proved above."""
            f = dict(zip(('template', 'value'), args), **kwargs)
            if ctx.choose(2):
                interp.raise_(ValueError)
            r = ctx.alloc(attr)
            for x, y in (('name', ctx.any_value('name', [str])), ('notes', None),
                         ('_value', f['value']), ('_template', f['template'])):
                ctx.write_field(r, x, y)
            asked.append(r)
            return r
        ctx.func_contracts[impl.make_attribute] = make_attribute
        o = ctx.obj(target, 'target')
        t = ctx.obj({a: c for c, a in ATTRS.items()}[attr], 'template')
        v = ctx.obj(NominalReal, 'value')

        for f in LISTS.values():
            if f in TABLE[target]:
                # any list such as the setter makes
                interp.setattr(o, f[1:], ctx.new_list([]))
                ctx.set_content(interp.getattr(o, f), CSeq(n=ctx.fresh(I, 'n'),
                                                           arr=ctx.fresh(SeqArr, 'items')))
                ctx.assume(ctx.seq_terms(interp.seq_content(interp.getattr(o, f)))[0] >= 0)

        def lists():
            out = {}
            for f in LISTS.values():
                if f in TABLE[target]:
                    lst = interp.getattr(o, f)
                    out[f] = (lst, *ctx.seq_terms(interp.seq_content(lst)))
            return out
        before = lists()
        last, inner = None, None
        if target is MaterialSpec:
            _, n, arr = before['_properties']
            if attr is Condition and ctx.branch(n > 0):
                last = SV(z3.simplify(arr[n - 1]))
                ctx.touch(last.t)
                ctx.assume(Val.is_ref(last.t))
                ctx.narrow(last.t, [PropertyAndConditions])
                ctx.assume(Val.a(last.t) > 0)
                inner = ctx.seq_terms(interp.seq_content(interp.getattr(last, '_conditions')))
        kind, r = outcome(lambda: interp.call(impl.add_attribute, [o, t, v]))
        after = lists()
        grown = LISTS[attr] if kind == 'ret' and last is None else None
        k = ctx.fresh(I, 'k')
        for f, (lst, n, arr) in before.items():
            lst2, n2, arr2 = after[f]
            ctx.prove('the lists stay where they are', ctx.lift(lst) == ctx.lift(lst2))
            ctx.prove('what was there stays', z3.Implies(z3.And(0 <= k, k < n), arr2[k] == arr[k]))
            ctx.prove('one attribute is added to the list of its kind, none elsewhere',
                      n2 == n + (1 if f == grown else 0))
        if kind == 'raise':
            ctx.cover('refused')
            ctx.prove('an attribute is made, then refused, or none is made', len(asked) < 2)
            return
        ctx.cover('added')
        ctx.prove('the attribute made is returned', len(asked) == 1 and ctx.lift(r) == asked[0].t)
        ctx.prove('it is made of what is given', z3.And(
            ctx.lift(interp.getattr(r, '_template')) == t.t,
            ctx.lift(interp.getattr(r, '_value')) == v.t))
        if last is not None:
            n2, arr2 = ctx.seq_terms(interp.seq_content(interp.getattr(last, '_conditions')))
            ctx.prove('a condition joins the last property', z3.And(
                n2 == inner[0] + 1, arr2[inner[0]] == r.t))
            return
        ctx.prove('the target has a list of this kind', grown in before)
        _, n, _ = before[grown]
        el = SV(z3.simplify(after[grown][2][n]))
        if target is MaterialSpec:
            ctx.prove('a property of a material is kept without conditions', z3.And(
                clsof(el.t) == UNIVERSE.cid(PropertyAndConditions),
                ctx.lift(interp.getattr(el, '_property')) == r.t,
                ctx.seq_terms(interp.seq_content(interp.getattr(el, '_conditions')))[0] == 0))
        else:
            ctx.prove('it is added once', el.t == r.t)


for _t in TARGETS:
    for _a in LISTS:
        add_unit(_t, _a)


# ------------------------------------------------------------------- add_measurement
def measurement_unit(kinds, tag):
    @unit('C17', f'add_measurement(attributes={tag})', covers=['measured'],
          note='' if len(kinds) < 2 else 'up to three attributes')
    def u(ctx, interp):
        for has, f, _ in c10.VALIDATE.values():
            ctx.func_contracts[has.__dict__[f]] = c10.validates
        ctx.func_contracts.update(eq_contract())
        mixed = len(kinds) > 1
        if kinds and not mixed:
            set_level(ctx, interp)
        mat = ctx.obj(MaterialRun, 'material')
        name = ctx.any_value('name', [str] if mixed else [str, NONE])
        t = ctx.any_value('template', [NONE] if mixed else [MeasurementTemplate, NONE])
        k = ctx.fresh(I, 'k')
        n0, arr0 = ctx.seq_terms(interp.seq_content(interp.getattr(mat, '_measurements')))
        spine, n, arr = None, z3.IntVal(0), None
        if not kinds:
            attrs = None
        elif len(kinds) == 1:
            attrs = ctx.obj(list, 'attributes')
            n, arr = ctx.seq_terms(interp.seq_content(attrs))
            q = z3.Int('q!attr')
            fact = z3.Implies(z3.And(0 <= q, q < n), z3.And(
                clsof(arr[q]) == UNIVERSE.cid(kinds[0]), Val.is_ref(arr[q])))
            ctx.assume(z3.ForAll([q], fact, patterns=[arr[q]]))
            ctx.element_lemmas.append((q, fact, None))
            ctx.witnesses.append((arr, k))
        else:
            spine = [ctx.obj(kinds[ctx.choose(len(kinds))], 'attribute')
                     for _ in range(1 + ctx.choose(3))]
            attrs = ctx.new_list(spine)
        kind, r = outcome(lambda: interp.call(impl.add_measurement, [mat], {
            'name': name, 'template': t, 'attributes': attrs}))
        if kind == 'raise':
            ctx.cover('refused')
            if not kinds:
                ctx.prove('a name or a template is needed', z3.And(
                    Val.is_none(name.t), Val.is_none(t.t)))
            return
        ctx.cover('measured')

        def get(o, f):
            return ctx.lift(interp.getattr(o, f))
        spec = interp.getattr(r, 'spec')
        ctx.prove('a measurement run is made', instance(interp, r, MeasurementRun))
        ctx.prove('with a specification', instance(interp, spec, MeasurementSpec))
        want = name.t
        if interp.decide(interp.is_(name, None)):
            want = get(t, 'name')
        ctx.prove('both have the name', z3.And(get(r, 'name') == want, get(spec, 'name') == want))
        ctx.prove('the specification has the template', get(spec, 'template') == t.t)
        n1, arr1 = ctx.seq_terms(interp.seq_content(interp.getattr(mat, '_measurements')))
        ctx.prove('it is a measurement of the material, once', z3.And(
            get(r, 'material') == mat.t, n1 == n0 + 1, arr1[n0] == r.t,
            z3.Implies(z3.And(0 <= k, k < n0), arr1[k] == arr0[k])))
        for cls, f in LISTS.items():
            m, a = ctx.seq_terms(interp.seq_content(interp.getattr(r, f)))
            if spine is not None:
                mine = [x for x in spine if ctx.candidates(x) == {cls}]
                ctx.prove('every attribute is in the list of its kind, once', z3.And(
                    m == len(mine), *[a[i] == x.t for i, x in enumerate(mine)]))
            elif kinds and kinds[0] is cls:
                ctx.prove('every attribute is in the list of its kind, once', z3.And(
                    m == n, z3.Implies(z3.And(0 <= k, k < n), a[k] == arr[k])))
            else:
                ctx.prove('there are no others', m == 0)


measurement_unit([], 'nothing')
measurement_unit(list(LISTS), 'a mixture')
for _a in LISTS:
    measurement_unit([_a], f'any number of {_a.__name__}')


@unit('C17', 'add_measurement(attributes=other things)')
def u_badattr(ctx, interp):
    ctx.func_contracts.update(eq_contract())
    mat = ctx.obj(MaterialRun, 'material')
    x = ctx.any_value('x', [int, str, NONE, PropertyAndConditions, LinkByUID, PropertyTemplate])
    kind, r = outcome(lambda: interp.call(impl.add_measurement, [mat], {
        'name': 'name', 'attributes': ctx.new_list([x])}))
    ctx.prove('anything but an attribute is an error', kind == 'raise')

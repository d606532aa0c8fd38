"""C10: template limits are enforced exactly as the validation level says.

Three layers, each verified against the contract of the one below: bounds.contains (whose contract is
proved under C07), the setters of an attribute and the template's validation of an attribute, and the
attribute lists of an object.
"""
import z3

from gemd.entity.attribute import Condition, Parameter, Property, PropertyAndConditions
from gemd.entity.bounds.base_bounds import BaseBounds
from gemd.entity.bounds_validation import WarningLevel
from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.object import (MaterialSpec, MeasurementRun, MeasurementSpec, ProcessRun,
                                ProcessSpec)
from gemd.entity.template import (ConditionTemplate, MaterialTemplate, MeasurementTemplate,
                                  ParameterTemplate, ProcessTemplate, PropertyTemplate)
from gemd.entity.template.has_condition_templates import HasConditionTemplates
from gemd.entity.template.has_parameter_templates import HasParameterTemplates
from gemd.entity.template.has_property_templates import HasPropertyTemplates
from gemd.entity.valid_list import ValidList
from gemd.entity.value.base_value import BaseValue

from pyvc.ctx import PyRaise
from pyvc.unit import unit, outcome
from pyvc.values import *  # noqa: F401,F403
from pyvc.values import UNIVERSE, B, I, SeqArr, Val, clsof

from . import regions as rg
from .common import EQ, instance, logs, set_level
from .shapes import BOUNDS, GEMD, TABLE, VALUES, ListOf

CONT = z3.Function('CONTAINS', Val, Val, B)
FORMLESS = z3.Function('FORMS_NO_BOUNDS', Val, B)
VALID = z3.Function('VALID_FOR', Val, Val, B)
BROKEN = z3.Function('CANNOT_BE_VALIDATED', Val, Val, B)
KINDS = {Property: PropertyTemplate, Condition: ConditionTemplate, Parameter: ParameterTemplate}
FATAL, WARNING, IGNORE = WarningLevel.FATAL, WarningLevel.WARNING, WarningLevel.IGNORE


def contains(interp, args, kwargs):
    """The contract proved under C07: nothing is not contained; a value or bounds is or is not, or
    (a value only) forms no bounds and is an error; anything else is an error."""
    ctx = interp.ctx
    me, v = args
    if v is None or interp.decide(interp.is_(v, None)):
        return False
    if not interp.decide(interp.isinstance_(v, (BaseValue, BaseBounds))):
        raise PyRaise(SExc(TypeError, ()))
    t = ctx.lift(v)
    if interp.decide(interp.isinstance_(v, BaseValue)) and ctx.branch(FORMLESS(t)):
        raise PyRaise(SExc(ValueError, ()))
    return SV(Val.bool(CONT(ctx.lift(me), t)))


def install(ctx):
    for c in BOUNDS + (BaseBounds,):
        if 'contains' in c.__dict__:
            ctx.func_contracts[c.__dict__['contains']] = contains


def inside(ctx, interp, template, value):
    """The value lies within the template's bounds (None: it forms no bounds)."""
    t = ctx.lift(value)
    if ctx.branch(FORMLESS(t)):
        return None
    return ctx.branch(CONT(ctx.lift(interp.getattr(template, '_bounds')), t))


def verdict(ctx, level, kind, n, ok, what):
    """What the level asks for (ok: within limits | not | None: the value forms no bounds)."""
    if level is IGNORE:
        ctx.cover('ignore')
        ctx.prove(f'ignore: {what} silently', kind == 'ret' and n == 0)
    elif ok is None:
        ctx.cover('no bounds')
        ctx.prove('a value that forms no bounds is not accepted where limits are checked',
                  kind == 'raise')
    elif ok:
        ctx.cover('within')
        ctx.prove(f'within the limits {what} without complaint', kind == 'ret' and n == 0)
    elif level is FATAL:
        ctx.cover('fatal')
        ctx.prove('outside the limits is an error at the strictest level', kind == 'raise')
    else:
        ctx.cover('warning')
        ctx.prove(f'outside the limits {what} and logged at the warning level',
                  kind == 'ret' and bool(n))


ATTR_FIELDS = ('name', 'notes', '_value', '_template', '_origin', '_file_links')
OTHERS = [type(None), int, str, LinkByUID] + list(KINDS.values()) + [MaterialTemplate]


def attribute_unit(cls, field):
    tmpl = KINDS[cls]

    @unit('C10', f'{cls.__name__}.{field} = ...',
          covers=['within', 'fatal', 'warning', 'ignore', 'no bounds', 'free', 'refused'])
    def u(ctx, interp):
        install(ctx)
        level = set_level(ctx, interp)
        o = ctx.obj(cls, 'attribute')
        before = {f: ctx.lift(interp.getattr(o, f)) for f in ATTR_FIELDS}
        if field == 'value':
            x = ctx.any_value('value', list(VALUES) + OTHERS)
            typed = instance(interp, x, BaseValue)
            value, template = x, interp.getattr(o, '_template')
        else:
            x = ctx.any_value('template', list(VALUES[:1]) + OTHERS)
            typed = instance(interp, x, (tmpl, LinkByUID))
            value, template = interp.getattr(o, '_value'), x
        none = x is None or interp.decide(interp.is_(x, None))
        checked = typed and instance(interp, template, tmpl) and instance(interp, value, BaseValue)
        ok = inside(ctx, interp, template, value) if checked else True
        start = len(ctx.events)
        kind, r = outcome(lambda: interp.setattr(o, field, x))
        n = logs(ctx, start)
        for f in ATTR_FIELDS:
            now = ctx.lift(interp.getattr(o, f))
            if f == '_' + field and kind == 'ret':
                ctx.prove('what is assigned is stored', now == ctx.lift(x))
            else:
                ctx.prove('everything else stays', now == before[f])
        if not typed and not none:
            ctx.cover('refused')
            ctx.prove('anything of another type is an error', kind == 'raise')
        elif not checked:
            ctx.cover('free')
            ctx.prove('nothing to check: accepted without complaint', kind == 'ret' and n == 0)
        else:
            verdict(ctx, level, kind, n, ok, 'is stored')


def construct_unit(cls):
    tmpl = KINDS[cls]

    @unit('C10', f'{cls.__name__}(template=, value=)',
          covers=['within', 'fatal', 'warning', 'ignore', 'no bounds', 'free', 'refused'])
    def u(ctx, interp):
        install(ctx)
        level = set_level(ctx, interp)
        v = ctx.any_value('value', [VALUES[0], VALUES[5], int, type(None)])
        t = ctx.any_value('template', OTHERS)
        typed = all(x is None or interp.decide(interp.is_(x, None)) or instance(interp, x, c)
                    for x, c in ((v, BaseValue), (t, (tmpl, LinkByUID))))
        checked = typed and instance(interp, v, BaseValue) and instance(interp, t, tmpl)
        ok = inside(ctx, interp, t, v) if checked else True
        start = len(ctx.events)
        kind, o = outcome(lambda: interp.call(cls, ['name'], {'template': t, 'value': v}))
        n = logs(ctx, start)
        if kind == 'ret':
            ctx.prove('what is given is stored', z3.And(
                ctx.lift(interp.getattr(o, 'value')) == ctx.lift(v),
                ctx.lift(interp.getattr(o, 'template')) == ctx.lift(t)))
        if not typed:
            ctx.cover('refused')
            ctx.prove('anything of another type is an error', kind == 'raise')
        elif not checked:
            ctx.cover('free')
            ctx.prove('nothing to check: accepted without complaint', kind == 'ret' and n == 0)
        else:
            verdict(ctx, level, kind, n, ok, 'is stored')


for _c in KINDS:
    attribute_unit(_c, 'value')
    attribute_unit(_c, 'template')
    construct_unit(_c)


# ------------------------------------------------- the template's verdict on an attribute
def same(interp, args, kwargs):
    """Equality of templates and links: some reflexive and symmetric relation (C20, C13)."""
    ctx = interp.ctx
    a, b = (ctx.lift(x) for x in args)
    ctx.assume(EQ(a, b) == EQ(b, a))
    ctx.assume(z3.Implies(a == b, EQ(a, b)))
    return SV(Val.bool(EQ(a, b)))


class Pairs(ListOf):
    """The templates of an object template, each with its narrowed bounds or nothing."""

    def __init__(self, name, cls):
        super().__init__(name, list, content=(cls, LinkByUID, list, tuple), trigger=True)
        self.pair = Pair(cls)

    def elem_facts(self, ctx, v, el):
        super().elem_facts(ctx, v, el)
        if isinstance(el, SV):
            ctx.list_shapes[el.t.get_id()] = self.pair


class Pair:
    def __init__(self, cls):
        self.cls = cls

    def content_facts(self, ctx, v, n, arr):
        ctx.assume(n == 2)
        a, b = z3.simplify(arr[0]), z3.simplify(arr[1])
        for t in (a, b):
            ctx.touch(t)
            ctx.assume(z3.Implies(Val.is_ref(t), Val.a(t) > 0))
        ctx.narrow(a, [self.cls, LinkByUID])
        ctx.narrow(b, list(BOUNDS) + [type(None)])

    def elem_facts(self, ctx, v, el):
        pass


VALIDATE = {Property: (HasPropertyTemplates, 'validate_property', '_properties'),
            Condition: (HasConditionTemplates, 'validate_condition', '_conditions'),
            Parameter: (HasParameterTemplates, 'validate_parameter', '_parameters')}


def validate_unit(owner, attr):
    has, name, field = VALIDATE[attr]
    tmpl = KINDS[attr]

    @unit('C10', f'{owner.__name__}.{name}',
          covers=['absent', 'narrowed', 'own bounds', 'link', 'by name', 'by template'])
    def u(ctx, interp):
        from gemd.entity.base_entity import BaseEntity
        from gemd.entity.dict_serializable import DictSerializable
        install(ctx)
        for c in (DictSerializable, BaseEntity, LinkByUID):
            if '__eq__' in c.__dict__:
                ctx.func_contracts[c.__dict__['__eq__']] = same
        shape = Pairs(field, tmpl)
        o = ctx.obj(owner, 'template')
        lst = interp.getattr(o, field)
        ctx.list_shapes[lst.t.get_id()] = shape
        n, arr = ctx.seq_terms(interp.seq_content(lst))
        a = ctx.obj(attr, 'attribute')
        arg = a
        if attr is Property and ctx.choose(2):
            arg = ctx.obj(PropertyAndConditions, 'pac')
            a = interp.getattr(arg, '_property')
        t = interp.getattr(a, '_template')
        given = instance(interp, t, (tmpl, LinkByUID))
        ctx.cover('by template' if given else 'by name')

        def pair(i):
            """Entry i: (template or link, bounds or None)."""
            el = SV(z3.simplify(arr[i]))
            interp.instantiate_lemmas(arr, i)
            ctx.assume(z3.Implies(Val.is_ref(el.t), Val.a(el.t) > 0))
            ctx.narrow(el.t, [list])
            ctx.list_shapes[el.t.get_id()] = shape.pair
            _, p = ctx.seq_terms(interp.seq_content(el))
            return SV(z3.simplify(p[0])), SV(z3.simplify(p[1]))

        def matches(i):
            """Entry i is for the attribute's template (or, without one, for its name)."""
            x, _ = pair(i)
            if given:
                return EQ(ctx.lift(t), x.t)
            return z3.And(clsof(x.t) == UNIVERSE.cid(tmpl),
                          rg.fld(x.t, 'name') == name_)
        name_ = ctx.lift(interp.getattr(a, 'name'))
        value = interp.getattr(a, '_value')
        q = z3.Int('q!entry')
        j = ctx.fresh(I, 'j')
        any_ = z3.substitute(matches(j), (j, q))
        found = bool(ctx.choose(2))
        first = n
        if found:
            first = ctx.fresh(I, 'first')
            ctx.assume(z3.And(0 <= first, first < n, matches(first)))
        # no earlier entry (or none at all) is
        none = z3.Implies(z3.And(0 <= q, q < first), z3.Not(any_))
        ctx.assume(z3.ForAll([q], none, patterns=[arr[q]]))
        ctx.element_lemmas.append((q, none, None))
        if found:
            ctx.witnesses.append((arr, first))
        start, mark = len(ctx.events), rg.mark(ctx)
        kind, r = outcome(lambda: interp.call(interp.getattr(o, name), [arg]))
        ctx.prove('validation logs nothing', logs(ctx, start) == 0)
        rg.pure(ctx, mark, 'validation')
        if not found:
            ctx.cover('absent')
            ctx.prove('an attribute the template does not mention is valid',
                      kind == 'ret' and r is True)
            return
        x, b = pair(first)
        narrowed = not interp.decide(interp.is_(b, None))
        if narrowed:
            ctx.cover('narrowed')
            limits = b.t
        elif interp.decide(interp.isinstance_(x, tmpl)):
            ctx.cover('own bounds')
            limits = ctx.lift(interp.getattr(x, '_bounds'))
        else:
            ctx.cover('link')
            ctx.prove('a link without narrowed bounds sets no limits', kind == 'ret' and r is True)
            return
        v = ctx.lift(value)
        empty = interp.decide(interp.is_(value, None))
        if kind == 'raise':
            ctx.prove('an error only for a value that forms no bounds',
                      z3.And(z3.Not(Val.is_none(v)), FORMLESS(v)))
            return
        ctx.prove('absent from, or outside, the limits given for the template is invalid; '
                  'within them is valid', (z3.BoolVal(False) if empty else CONT(limits, v))
                  == interp.truth_decide(r))


for _o, _as in ((MaterialTemplate, [Property]), (ProcessTemplate, [Condition, Parameter]),
                (MeasurementTemplate, [Property, Condition, Parameter])):
    for _a in _as:
        validate_unit(_o, _a)


# --------------------------------------------------------- the attribute lists of an object
def validates(interp, args, kwargs):
    """The template's verdict, proved above: valid or not, or an error (a value without bounds)."""
    ctx = interp.ctx
    a, b = (ctx.lift(x) for x in args)
    if ctx.branch(BROKEN(a, b)):
        raise PyRaise(SExc(TypeError, ()))
    return SV(Val.bool(VALID(a, b)))


def expected(ctx, level, checked, t, x, attr):
    """For one element: None if it has the wrong type, else what its validation says."""
    if not ctx.branch(clsof(x) == UNIVERSE.cid(attr)):
        return 'mistyped'
    if not checked or level is IGNORE:
        return 'free'
    if ctx.branch(BROKEN(t, x)):
        return 'no bounds'
    return 'within' if ctx.branch(VALID(t, x)) else 'outside'


def judge(ctx, want, level, kind, n):
    if want == 'mistyped':
        ctx.cover('refused')
        ctx.prove('an element of another type is an error', kind == 'raise')
    elif want == 'free':
        ctx.cover('free')
        ctx.prove('without a template to check against, or at the ignore level, every attribute is '
                  'accepted silently', kind == 'ret' and n == 0)
    elif want == 'no bounds':
        ctx.prove('an attribute that cannot be validated is refused', kind == 'raise')
    elif want == 'within':
        ctx.cover('within')
        ctx.prove('an attribute within the limits is accepted without complaint',
                  kind == 'ret' and n == 0)
    elif level is FATAL:
        ctx.cover('fatal')
        ctx.prove('an attribute outside the limits is an error at the strictest level',
                  kind == 'raise')
    else:
        ctx.cover('warning')
        ctx.prove('an attribute outside the limits is accepted and logged at the warning level',
                  kind == 'ret' and bool(n))


def host_unit(host, field, attr):
    name = field[1:]
    tmpl = {MaterialSpec: MaterialTemplate, ProcessSpec: ProcessTemplate,
            ProcessRun: ProcessTemplate}.get(host, MeasurementTemplate)
    odd = [attr, LinkByUID, type(None), str]

    def state(ctx, interp):
        for has, f, _ in VALIDATE.values():
            ctx.func_contracts[has.__dict__[f]] = validates
        level = set_level(ctx, interp)
        o = ctx.obj(host, 'host')
        return level, o

    def limits(ctx, interp, o):
        template = interp.getattr(o, 'template')
        return instance(interp, template, tmpl), ctx.lift(template)

    def untouched(ctx, interp, o, before, bn, barr):
        after = interp.getattr(o, field)
        n2, arr2 = ctx.seq_terms(interp.seq_content(after))
        k = ctx.fresh(I, 'k')
        ctx.prove('a refused list changes nothing', z3.And(
            ctx.lift(after) == ctx.lift(before), n2 == bn,
            z3.Implies(z3.And(0 <= k, k < bn), arr2[k] == barr[k])))

    def holds(ctx, interp, o, x):
        n2, arr2 = ctx.seq_terms(interp.seq_content(interp.getattr(o, field)))
        ctx.prove('an accepted attribute is stored', z3.And(n2 == 1, arr2[0] == x))

    @unit('C10', f'{host.__name__}.{name} = one attribute',
          covers=['within', 'fatal', 'warning', 'free', 'refused'])
    def u_one(ctx, interp):
        level, o = state(ctx, interp)
        checked, t = limits(ctx, interp, o)
        before = interp.getattr(o, field)
        bn, barr = ctx.seq_terms(interp.seq_content(before))
        x = ctx.any_value('x', [c for c in odd if c not in (type(None), str)])
        given = x if ctx.choose(2) else ctx.new_list([x])
        want = expected(ctx, level, checked, t, x.t, attr)
        start = len(ctx.events)
        kind, r = outcome(lambda: interp.setattr(o, name, given))
        judge(ctx, want, level, kind, logs(ctx, start))
        if kind == 'raise':
            untouched(ctx, interp, o, before, bn, barr)
        else:
            holds(ctx, interp, o, x.t)

    @unit('C10', f'{host.__name__}.{name} = any list',
          covers=['within', 'fatal', 'warning', 'free', 'refused'])
    def u_list(ctx, interp):
        level, o = state(ctx, interp)
        checked, t = limits(ctx, interp, o)
        before = interp.getattr(o, field)
        bn, barr = ctx.seq_terms(interp.seq_content(before))
        x = ctx.obj(list, 'items')
        n, arr = ctx.seq_terms(interp.seq_content(x))
        q = z3.Int('q!item')
        typed = lambda e: clsof(e) == UNIVERSE.cid(attr)              # noqa: E731
        fine = lambda e: z3.And(z3.Not(BROKEN(t, e)), VALID(t, e))    # noqa: E731
        checks = checked and level is not IGNORE

        def every(f):
            fact = z3.Implies(z3.And(0 <= q, q < n), f(arr[q]))
            ctx.assume(z3.ForAll([q], fact, patterns=[arr[q]]))
            ctx.element_lemmas.append((q, fact, None))
        way = ctx.choose(3)
        if way == 0:        # nothing is wrong with any element
            every(lambda e: z3.And(typed(e), fine(e)) if checks else typed(e))
        elif way == 1:      # something is wrong with some element
            i = ctx.fresh(I, 'i')
            ctx.assume(z3.And(0 <= i, i < n))
            ctx.witnesses.append((arr, i))
            e = z3.simplify(arr[i])
            ctx.touch(e)
            ctx.assume(z3.Or(z3.Not(typed(e)), z3.Not(fine(e))) if checks else z3.Not(typed(e)))
            must = z3.Or(z3.Not(typed(e)), BROKEN(t, e)) if checks and level is WARNING else None
        else:               # some are outside, and the level only warns
            if not checks or level is not WARNING:
                return
            every(lambda e: z3.And(typed(e), z3.Not(BROKEN(t, e))))
        start = len(ctx.events)
        kind, r = outcome(lambda: interp.setattr(o, name, x))
        logged = logs(ctx, start)
        after = interp.getattr(o, field)
        if kind == 'raise':
            untouched(ctx, interp, o, before, bn, barr)
        else:
            n2, arr2 = ctx.seq_terms(interp.seq_content(after))
            k = ctx.fresh(I, 'k')
            ctx.witnesses.append((arr, k))
            ctx.prove('an accepted list is stored as given', z3.And(
                n2 == n, z3.Implies(z3.And(0 <= k, k < n), arr2[k] == arr[k])))
        if way == 0:
            ctx.cover('within' if checks else 'free')
            ctx.prove('attributes within the limits are accepted without complaint',
                      kind == 'ret' and logged == 0)
        elif way == 1:
            ctx.cover('fatal' if checks and level is FATAL else 'refused')
            ctx.prove('an attribute outside the limits or of another type is an error',
                      kind == 'raise' if must is None else z3.Implies(must, kind == 'raise'))
        else:
            ctx.cover('warning')
            ctx.prove('attributes outside the limits are accepted at the warning level',
                      kind == 'ret')

    @unit('C10', f'{host.__name__}.{name}.append(...)',
          covers=['within', 'fatal', 'warning', 'free', 'refused'])
    def u_later(ctx, interp):
        level, o = state(ctx, interp)
        interp.setattr(o, name, ctx.new_list([]))
        if host in (MaterialSpec, ProcessSpec, MeasurementSpec) and ctx.choose(2):
            interp.setattr(o, 'template', ctx.obj(tmpl, 'another template'))
        checked, t = limits(ctx, interp, o)
        lst = interp.getattr(o, field)
        x = ctx.any_value('x', odd)
        want = expected(ctx, level, checked, t, ctx.lift(x), attr)
        start = len(ctx.events)
        op = ('append', 'insert', 'extend', '__iadd__')[ctx.choose(4)]
        args = {'append': [x], 'insert': [ctx.any_value('at', [int]), x]}.get(
            op, [ctx.new_list([x])])
        kind, r = outcome(lambda: interp.call(interp.getattr(lst, op), args))
        judge(ctx, want, level, kind, logs(ctx, start))
        if kind == 'raise':
            n2, _ = ctx.seq_terms(interp.seq_content(lst))
            ctx.prove('a refused attribute is not added', n2 == 0)
        else:
            holds(ctx, interp, o, ctx.lift(x))


host_unit(MaterialSpec, '_properties', PropertyAndConditions)
for _h in (ProcessSpec, ProcessRun, MeasurementSpec, MeasurementRun):
    host_unit(_h, '_conditions', Condition)
    host_unit(_h, '_parameters', Parameter)
host_unit(MeasurementRun, '_properties', Property)

"""C01: the JSON round trip.

Class by class: what is written of an object is every stored field (and its type name), and the class
given these fields makes an object with the very same stored fields.  Around that: the encoder, the
object hook with its index, and what `dumps` and `loads` hand to the `json` module.  The composition
(writing and reading text is the business of `json`) is an assumption, sampled by the harness.
"""
import ast
import inspect

import z3

import gemd.json.gemd_json as gj
from gemd.entity.case_insensitive_dict import CaseInsensitiveDict
from gemd.entity.dict_serializable import DictSerializable
from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.attribute import Condition, Parameter, Property
from gemd.entity.object import IngredientRun, IngredientSpec, MaterialRun, MeasurementRun
from gemd.entity.template import MaterialTemplate, MeasurementTemplate, ProcessTemplate
from gemd.entity.value import DiscreteCategorical, EmpiricalFormula, InChI

from pyvc.ctx import Unsupported
from pyvc.unit import unit, outcome
from pyvc.values import *  # noqa: F401,F403
from pyvc.values import UNIVERSE, Val, I, B, R, Str

from . import unitmodel as um
from . import uidmap
from .common import eq_contract, logs
from .shapes import (ENTITIES, GEMD, TABLE, ListOf, NONE, StrMap, StrSet, Uids, INTS)


def public(f):
    return f.lstrip('_')


def arguments(cls):
    spec = inspect.getfullargspec(cls.__init__)
    return set(spec.args[1:]) | set(spec.kwonlyargs)


def stored(cls):
    """The fields that belong to an object itself; back links belong to the other side."""
    return [f for f in TABLE[cls] if public(f) in arguments(cls)]


def fields_unit(cls):
    @unit('C01', f'every stored field of {cls.__name__} is written, under the name it is read by')
    def u(ctx, interp):
        x = ctx.obj(cls, 'x')
        kind, d = outcome(lambda: interp.call(interp.getattr(x, 'as_dict'), []))
        ctx.prove('writing succeeds', kind == 'ret')
        given = interp.map_content(d).spine
        if given is None:
            raise Unsupported("the fields are not listed one by one")
        got = {str(k): v for k, v in given}
        ctx.prove('each once', len(got) == len(given))
        want = {public(f) for f in stored(cls)} | {'type'} | READ_BESIDES.get(cls, set())
        ctx.prove('every stored field is written', want <= set(got))
        ctx.prove('nothing is written that is not read', set(got) <= want)
        for f in stored(cls):
            v = interp.getattr(x, public(f))
            spec = TABLE[cls][f]
            if isinstance(spec, StrSet):
                members_same(ctx, interp, public(f), interp.getattr(x, f), got[public(f)])
            else:
                same(ctx, interp, f'{public(f)} is written as it is', got[public(f)], v)


# read by from_dict itself
READ_BESIDES = {IngredientRun: {'name', 'labels'}}


def members_same(ctx, interp, name, a, b):
    """A set is written as a list of its members."""
    d = ctx.set_term(interp.set_content_of(a))
    n, arr = ctx.seq_terms(interp.seq_content(b))
    m, order = interp.dom_order(d)
    k, i, q = ctx.fresh(Val, 'k'), ctx.fresh(I, 'i'), z3.Int('q!m')
    ctx.inst_all(k)
    ctx.prove(f'{name}: all that is written is a member',
              z3.Implies(z3.And(0 <= i, i < n), d[arr[i]]))
    ctx.prove(f'{name}: every member is written', z3.Implies(
        d[k], z3.Exists([q], z3.And(0 <= q, q < n, arr[q] == k))))


def same(ctx, interp, name, a, b):
    if isinstance(a, SV) or isinstance(b, SV):
        ctx.prove(name, ctx.lift(a) == ctx.lift(b))
    else:
        ctx.prove(name, a is b or a == b)


for _c in GEMD:
    fields_unit(_c)


def prepare(ctx, interp, cls, x):
    """What the setters keep of a stored object (C07, C09), and references as they are written."""
    for f in stored(cls):
        spec = TABLE[cls][f]
        if type(spec).__name__ == 'Field' and LinkByUID in spec.classes:
            v = interp.getattr(x, f)
            if isinstance(v, SV):
                ctx.narrow(v.t, [c for c in spec.classes if c in (LinkByUID, NONE)])
        if isinstance(spec, ListOf):
            v = interp.getattr(x, f)
            if NONE in spec.classes and interp.decide(interp.is_(v, None)):
                continue
            n, arr = ctx.seq_terms(interp.seq_content(v))
            i = z3.Int('i!elem')
            ids = [UNIVERSE.cid(c) for c in spec.elems]
            ctx.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(
                Val.is_str(arr[i]) if spec.elems == [str] else Val.is_ref(arr[i]),
                z3.Or([clsof(arr[i]) == c for c in ids]))), patterns=[arr[i]]))
        elif type(spec).__name__ == 'Field' and spec.classes == [float, int]:
            ctx.narrow(interp.getattr(x, f).t, [float])
    for lo, hi in (('lower_bound', 'upper_bound'), ('_lower_bound', '_upper_bound')):
        if lo in TABLE[cls]:
            a, b = interp.getattr(x, lo), interp.getattr(x, hi)
            ctx.assume(z3.Not(z3.Or(Val.is_nan(a.t), Val.is_nan(b.t))))
            ctx.assume(ctx.lift(interp.compare(ast.LtE(), a, b)) == Val.bool(True))
    if '_units' in TABLE[cls]:
        um.stored(ctx, interp, x, '_units')
    if '_default_units' in TABLE[cls]:
        um.stored(ctx, interp, x, '_default_units')


def content_same(ctx, interp, name, spec, a, b):
    if isinstance(spec, (ListOf,)):
        if NONE in spec.classes:
            none_a = interp.decide(interp.is_(a, None))
            none_b = interp.decide(interp.is_(b, None))
            ctx.prove(f'{name}: none or a list', none_a == none_b)
            if none_a:
                return
        n, arr = ctx.seq_terms(interp.seq_content(a))
        m, got = ctx.seq_terms(interp.seq_content(b))
        i = ctx.fresh(I, 'i')
        ctx.assume(z3.Implies(n > 0, z3.And(0 <= i, i < n)))
        interp.instantiate_lemmas(got, i)
        ctx.prove(f'{name} has the same elements', z3.And(
            n == m, z3.Implies(n > 0, got[i] == arr[i])))
    elif isinstance(spec, StrSet):
        da, db = ctx.set_term(interp.set_content_of(a)), ctx.set_term(interp.set_content_of(b))
        k = ctx.fresh(Val, 'k')
        ctx.inst_all(k)
        ctx.prove(f'{name} has the same members', da[k] == db[k])
    elif isinstance(spec, (StrMap, Uids)):
        if NONE in spec.classes:
            none_a = interp.decide(interp.is_(a, None))
            none_b = interp.decide(interp.is_(b, None))
            ctx.prove(f'{name}: none or a mapping', none_a == none_b)
            if none_a:
                return
        d, m = ctx.map_terms(interp.map_content(a))
        gd, gm = ctx.map_terms(interp.map_content(b))
        k = ctx.fresh(Val, 'k')
        ctx.inst_all(k)
        ctx.prove(f'{name} has the same entries', z3.And(
            gd[k] == d[k], z3.Implies(d[k], gm[k] == m[k])))
    else:
        same(ctx, interp, f'{name} is the same', a, b)


def made_unit(cls, tier):
    @unit('C01', f'{cls.__name__} is made again from what is written', tier=tier)
    def u(ctx, interp):
        um.install(ctx)
        ctx.func_contracts.update(eq_contract())
        ctx.func_contracts[CaseInsensitiveDict] = copied
        x = ctx.obj(cls, 'x')
        prepare(ctx, interp, cls, x)
        d = interp.call(interp.getattr(x, 'as_dict'), [])
        since = len(ctx.events)
        kind, y = outcome(lambda: interp.call(
            interp.getattr(cls, 'from_dict'), [d]))
        if kind == 'raise':
            ctx.prove(f'reading succeeds: {y!r} {y.args!r}'[:200], False)
            return
        ctx.prove('of the same class', interp.decide(ctx.type_test(y, lambda c: c is cls)))
        ctx.prove('a new object', Val.a(ctx.lift(y)) < 0)
        ctx.prove('nothing is ignored', logs(ctx, since) == 0)
        for f in stored(cls):
            content_same(ctx, interp, public(f), TABLE[cls][f],
                         interp.getattr(x, f), interp.getattr(y, f))


def copied(interp, args, kwargs):
    """A case-insensitive mapping made of another one has its entries (C13)."""
    ctx = interp.ctx
    c = CMap(spine=()) if not args else interp.map_content(args[0])
    if args and not interp.decide(interp.isinstance_(args[0], CaseInsensitiveDict)):
        raise Unsupported("a case-insensitive mapping is made of something else")
    r = ctx.alloc(CaseInsensitiveDict)
    ctx.set_content(r, c)
    return r


# Not within the verifier's reach here (the harness samples them): dictionaries whose values are summed,
# text scanned by regular expressions, lists of pairs rebuilt one by one, and attributes whose value, template
# and origin are all checked against each other.
BEYOND = {
    DiscreteCategorical, EmpiricalFormula, InChI, MaterialTemplate, MeasurementTemplate, ProcessTemplate,
    IngredientSpec, IngredientRun, MaterialRun, Property, Condition, Parameter,
}

for _c in GEMD:
    if _c not in BEYOND:
        made_unit(_c, 'thorough' if _c is MeasurementRun else 'quick')

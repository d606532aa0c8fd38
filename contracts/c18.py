"""C18: type names and classes correspond one to one.

The registry is an arbitrary mapping from names to classes in which every class has the name it is
registered under; defining any further class keeps that, and takes a name only from an ancestor.
Reading is verified for an arbitrary registry and an arbitrary class.
"""
import inspect

import z3

from gemd.entity.base_entity import BaseEntity
from gemd.entity.dict_serializable import DictSerializable, DictSerializableMeta
from gemd.entity.link_by_uid import LinkByUID
from gemd.json.gemd_json import GEMDJson

from pyvc.models import KPOS
from pyvc.unit import unit, outcome
from pyvc.values import *  # noqa: F401,F403
from pyvc.values import UNIVERSE, Val, clsof, B, I, SExc

from .shapes import GEMD, ENTITIES, TABLE, Field, StrSet, StrMap

META_INIT = DictSerializableMeta.__dict__['__init__']


class AnyClass(DictSerializableMeta):
    """Its instances stand for arbitrary classes."""

    def from_dict(cls, d):
        """Replaced by its contract."""
        raise NotImplementedError


UNIVERSE.add(AnyClass)
TABLE[AnyClass] = dict(typ=Field(str), skip=StrSet('skip'), _class=StrMap('_class', (AnyClass,)))
SUB = z3.Function('ISSUBCLASS', Val, Val, B)


def issub(interp, args, kwargs):
    a, b = (interp.ctx.lift(x) for x in args)
    return SV(Val.bool(SUB(a, b)))


@unit('C18', 'defining a class', covers=['taken', 'new', 'inherited', 'refused', 'unnamed'])
def u_define(ctx, interp):
    ctx.func_contracts[issubclass] = issub
    ctx.func_contracts[('type', '__init__')] = lambda interp, args, kwargs: None
    cls = ctx.obj(AnyClass, 'cls')
    bases = STuple(tuple(ctx.obj(AnyClass, 'base') for _ in range(ctx.choose(2))))
    for b in bases.items:
        ctx.assume(b.t != cls.t)
    reg = interp.getattr(cls, '_class')
    dom, m = ctx.map_terms(interp.map_content(reg))
    named = bool(ctx.choose(2))
    typ = ctx.any_value('typ', [str]) if named else None
    n = ctx.any_value('n', [str]).t       # any name
    old_typ = ctx.lift(interp.getattr(cls, 'typ'))
    # the invariant, at any name; and the class is new
    other = SV(z3.simplify(m[n]))
    ctx.narrow(other.t, [AnyClass])
    ctx.assume(z3.Implies(dom[n], z3.And(other.t != cls.t, Val.is_ref(other.t))))
    ctx.assume(z3.Implies(dom[n], ctx.lift(interp.getattr(other, 'typ')) == n))
    kw = {} if not named and ctx.choose(2) else {'typ': typ}
    if ctx.choose(2):
        kw['skip'] = interp.call(set, [STuple((ctx.any_value('hidden', [str]),))])
    kind, r = outcome(lambda: interp.call(META_INIT, [cls, 'Name', bases, ctx.new_dict()], kw))
    dom2, m2 = ctx.map_terms(interp.map_content(reg))
    if kind == 'raise':
        ctx.cover('refused')
        ctx.prove('only a name that is taken is refused', named)
        ctx.prove('... by a class that is no ancestor', z3.And(
            dom[typ.t], z3.Not(SUB(cls.t, m[typ.t]))) if named else False)
        ctx.prove('a refused definition leaves the registry', z3.And(
            dom2[n] == dom[n], z3.Implies(dom[n], m2[n] == m[n])))
        ctx.prove('... and the type names', z3.And(
            ctx.lift(interp.getattr(cls, 'typ')) == old_typ,
            z3.Implies(dom[n], ctx.lift(interp.getattr(other, 'typ')) == n)))
        return
    if named:
        ctx.cover('taken' if ctx.branch(dom[typ.t]) else 'new')
        ctx.prove('a name is only taken from an ancestor',
                  z3.Implies(dom[typ.t], SUB(cls.t, m[typ.t])))
        ctx.prove('the class has its name', ctx.lift(interp.getattr(cls, 'typ')) == typ.t)
        ctx.prove('the name means the class', z3.And(dom2[typ.t], m2[typ.t] == cls.t))
        ctx.prove('the other names stay', z3.Implies(n != typ.t, z3.And(
            dom2[n] == dom[n], z3.Implies(dom[n], m2[n] == m[n]))))
        now = SV(z3.If(n == typ.t, cls.t, other.t))
        ctx.prove('every registered class has the name it is registered under', z3.Implies(
            dom2[n], z3.If(n == typ.t, ctx.lift(interp.getattr(cls, 'typ')) == n,
                           ctx.lift(interp.getattr(other, 'typ')) == n)))
    else:
        ctx.cover('unnamed')
        ctx.cover('inherited')
        ctx.prove('a class without a name is not registered', z3.And(
            dom2[n] == dom[n], z3.Implies(dom[n], m2[n] == m[n])))
        ctx.prove('and keeps the name it has', ctx.lift(interp.getattr(cls, 'typ')) == old_typ)


@unit('C18', 'the registry is not exposed')
def u_copy(ctx, interp):
    cls = ctx.obj(AnyClass, 'cls')
    reg = interp.getattr(cls, '_class')
    dom, m = ctx.map_terms(interp.map_content(reg))
    got = interp.call(DictSerializableMeta.__dict__['class_mapping'].fget, [cls])
    ctx.prove('a copy is given', ctx.lift(got) != reg.t)
    d2, m2 = ctx.map_terms(interp.map_content(got))
    n = ctx.any_value('n', [str]).t
    ctx.prove('it has the names and classes of the registry', z3.And(
        d2[n] == dom[n], z3.Implies(dom[n], m2[n] == m[n])))
    interp.setitem(got, SV(n), 0)
    d3, m3 = ctx.map_terms(interp.map_content(reg))
    ctx.prove('changing it leaves the registry', z3.And(d3[n] == dom[n], m3[n] == m[n]))


def string_keys(ctx, dom):
    q = z3.Const('q!key', Val)
    ctx.map_hooks.append((dom, lambda k: z3.Implies(dom[k], Val.is_str(k))))
    ctx.assume(z3.ForAll([q], z3.Implies(dom[q], Val.is_str(q)), patterns=[dom[q]]))


class Texts:
    elems = [str]

    def elem_facts(self, ctx, v, el):
        if isinstance(el, SV) and ctx.ctor(el.t) is None:
            ctx.narrow(el.t, [str])

    def content_facts(self, ctx, v, n, arr):
        pass


FROM_DICT = DictSerializable.from_dict.__func__


@unit('C18', 'from_dict gives exactly the recognised fields to the class', covers=['made', 'failed'])
def u_from(ctx, interp):
    sig = ctx.obj(list, 'sig')
    ns, asig = ctx.seq_terms(interp.seq_content(sig))
    ctx.list_shapes[sig.t.get_id()] = Texts()
    d = ctx.obj(dict, 'd')
    dom, m = ctx.map_terms(interp.map_content(d))
    string_keys(ctx, dom)
    calls = []
    made = ctx.obj(AnyClass, 'made')

    def make(interp, args, kw):
        calls.append((args, kw))
        if ctx.choose(2):
            interp.raise_(ValueError, 'refused by the constructor')
        return made
    k = ctx.any_value('k', [str]).t
    nk, keys = interp.dom_order(dom)
    ctx.inst_map(dom, k)
    ctx.witnesses.append((keys, z3.simplify(KPOS(dom, k))))
    cls = SMock('cls', {'_init_sig': lambda interp: sig, '__name__': 'Name',
                        '__call_map__': make})
    kind, r = outcome(lambda: interp.call(FROM_DICT, [cls, d]))
    ctx.prove('the class is called once', len(calls) == 1)
    if len(calls) != 1:
        return
    args, kw = calls[0]
    ctx.prove('with fields by name only', args == [])
    kd, km = ctx.map_terms(interp.map_content(kw))
    passed = ctx.branch(kd[k])
    known = interp.decide(interp.contains(sig, SV(k)))
    if passed:
        ctx.prove('a field is passed on only if the data has it', dom[k])
        ctx.prove('a field is passed on only if the class knows it', known)
    else:
        ctx.prove('a field the data has and the class knows is passed on',
                  z3.Not(z3.And(dom[k], z3.BoolVal(known))))
    ctx.prove('with the value the data has', z3.Implies(kd[k], km[k] == m[k]))
    d2, m2 = ctx.map_terms(interp.map_content(d))
    ctx.prove('the data is left alone', z3.And(d2[k] == dom[k], m2[k] == m[k]))
    if kind == 'ret':
        ctx.cover('made')
        ctx.prove('the instance is returned', ctx.lift(r) == made.t)
    else:
        ctx.cover('failed')


@unit('C18', 'every class recognises exactly its constructor arguments', shapes=False)
def u_sig(ctx, interp):
    for c in GEMD:
        want = list(inspect.signature(c).parameters)
        got = c._init_sig()
        ctx.prove(f'{c.__name__}', sorted(got) == sorted(want))


@unit('C18', 'every class has a name of its own', shapes=False)
def u_names(ctx, interp):
    reg = DictSerializable.class_mapping
    for c in GEMD:
        ctx.prove(f'{c.__name__}: has a type name of its own',
                  isinstance(c.__dict__.get('typ'), str))
        ctx.prove(f'{c.__name__}: the name means the class', reg.get(c.typ) is c)
    for n, c in reg.items():
        ctx.prove(f'{n}: is the name of its class', c.typ == n)


def name_unit(cls):
    @unit('C18', f'{cls.__name__}.as_dict carries the type name')
    def u(ctx, interp):
        o = ctx.obj(cls)
        d = interp.call(interp.getattr(o, 'as_dict'), [])
        ctx.prove('the type name is written', interp.eq(interp.getitem(d, 'type'), cls.typ))


for _c in GEMD:
    name_unit(_c)
LOAD = GEMDJson.__dict__['_load_and_index'].__func__


@unit('C18', 'reading an object uses the class of its type name',
      covers=['plain', 'unknown', 'made', 'failed'])
def u_load(ctx, interp):
    d = ctx.obj(dict, 'd')
    dom, m = ctx.map_terms(interp.map_content(d))
    reg = ctx.obj(dict, 'classes')
    rdom, rm = ctx.map_terms(interp.map_content(reg))
    index = ctx.obj(dict, 'index')
    ctx.assume(z3.And(d.t != reg.t, d.t != index.t, reg.t != index.t))
    string_keys(ctx, dom)
    string_keys(ctx, rdom)
    key = Val.str(ctx.strlit('type'))
    typ = z3.simplify(m[key])
    ctx.narrow(typ, [str, int, type(None)])
    clz = z3.simplify(rm[typ])
    ctx.narrow(clz, [AnyClass])
    calls = []

    def read(interp, args, kwargs):
        x = args[1]
        calls.append((args[0], ctx.map_terms(interp.map_content(x))))
        if ctx.choose(2):
            interp.raise_(TypeError, 'refused')
        if ctx.choose(2):
            return ctx.obj(LinkByUID, 'made')
        o = ctx.obj(BaseSample, 'made')
        string_keys(ctx, ctx.map_terms(interp.map_content(interp.getattr(o, 'uids')))[0])
        return o
    ctx.func_contracts[AnyClass.__dict__['from_dict']] = read
    ctx.func_contracts[issubclass] = lambda interp, args, kwargs: SV(Val.bool(
        ctx.fresh(B, 'is link')))
    kind, r = outcome(lambda: interp.call(LOAD, [d, index, reg]))
    if not calls and kind == 'ret':
        ctx.cover('plain')
        ctx.prove('only data without a type name is left as it is', z3.Not(dom[key]))
        ctx.prove('it is left as it is', ctx.lift(r) == d.t)
        return
    if not calls:
        ctx.cover('unknown')
        ctx.prove('an error only for unknown type names', z3.And(dom[key], z3.Not(rdom[typ])))
        ctx.prove('the error is a TypeError', r.cls is TypeError)
        return
    ctx.cover('made' if kind == 'ret' else 'failed')
    ctx.prove('the type name is known', z3.And(dom[key], rdom[typ]))
    ctx.prove('the class is that of the type name, and it is made once',
              z3.And(len(calls) == 1, ctx.lift(calls[0][0]) == clz))
    k = ctx.any_value('k', [str]).t
    cd, cm = calls[0][1]
    ctx.prove('from the fields in the data', z3.Implies(k != key, z3.And(
        cd[k] == dom[k], z3.Implies(dom[k], cm[k] == m[k]))))


BaseSample = ENTITIES[0]

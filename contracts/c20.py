"""C20: equality of objects.

Proved: what equality compares is every stored field (and the back links that belong to the object), for each class;
objects without references are equal exactly when they are of one kind and every field is; what an entity compares to
links, pairs, entities and everything else.  The comparison of graphs itself (`_cached_equals`: a cache of pairs still
being compared) is not under contract; the executable contract samples it.
"""
import ast

import z3

from gemd.entity.base_entity import BaseEntity
from gemd.entity.bounds import IntegerBounds, MolecularStructureBounds, RealBounds
from gemd.entity.dict_serializable import DictSerializable
from gemd.entity.file_link import FileLink
from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.object import MaterialRun, ProcessRun, ProcessSpec
from gemd.entity.source.performed_source import PerformedSource
from gemd.entity.value import (InChI, NominalCategorical, NominalInteger, NominalReal, NormalReal, Smiles,
                               UniformInteger, UniformReal)

from pyvc.ctx import Unsupported
from pyvc.unit import unit, outcome
from pyvc.values import *  # noqa: F401,F403
from pyvc.values import Val, B

from .c01 import members_same, public, READ_BESIDES, same, stored
from .shapes import ENTITIES, GEMD, TABLE, StrSet

BACK = {MaterialRun: '_measurements', ProcessRun: '_ingredients', ProcessSpec: '_ingredients'}


def compared_unit(cls):
    @unit('C20', f'every stored field of {cls.__name__} takes part in the comparison')
    def u(ctx, interp):
        x = ctx.obj(cls, 'x')
        kind, d = outcome(lambda: interp.call(interp.getattr(x, '_dict_for_compare'), []))
        ctx.prove('always possible', kind == 'ret')
        given = interp.map_content(d).spine
        if given is None:
            raise Unsupported("the fields are not listed one by one")
        got = {str(k): v for k, v in given}
        fields = stored(cls) + ([BACK[cls]] if cls in BACK else [])
        want = {public(f) for f in fields} | {'type'}
        ctx.prove('every stored field is compared', want <= set(got))
        ctx.prove('nothing else is', set(got) <= want | READ_BESIDES.get(cls, set()))
        for f in fields:
            if isinstance(TABLE[cls].get(f), StrSet):
                members_same(ctx, interp, public(f), interp.getattr(x, f), got[public(f)])
            else:
                same(ctx, interp, f'{public(f)} as it is', got[public(f)], interp.getattr(x, public(f)))
        ctx.prove('the type name', interp.eq(got['type'], cls.typ))


for _c in GEMD:
    if _c is not LinkByUID:
        compared_unit(_c)


PLAIN = [NominalReal, NormalReal, UniformReal, NominalInteger, UniformInteger, NominalCategorical, Smiles, InChI,
         RealBounds, IntegerBounds, MolecularStructureBounds, FileLink, PerformedSource]


def answer(interp, a, b):
    return interp.decide(interp.eq(a, b))


def plain_unit(cls):
    @unit('C20', f'{cls.__name__}: equal exactly when every field is',
          covers=['equal'] + (['different'] if stored(cls) else []))
    def u(ctx, interp):
        x, y = ctx.obj(cls, 'x'), ctx.obj(cls, 'y')
        r, back = answer(interp, x, y), answer(interp, y, x)
        ctx.prove('alike in both directions', r == back)
        alike = all([interp.decide(interp.eq(interp.getattr(x, public(f)), interp.getattr(y, public(f))))
                     for f in stored(cls)])
        ctx.cover('equal' if r else 'different')
        ctx.prove('equal exactly when every field is', r == alike)
        ctx.prove('unequal is the opposite', interp.decide(interp.compare(ast.NotEq(), x, y)) == (not r))


for _c in PLAIN:
    plain_unit(_c)


@unit('C20', 'objects of different kinds are different', covers=['compared'])
def u_kinds(ctx, interp):
    a, b = ctx.choose(len(PLAIN)), ctx.choose(len(PLAIN))
    if a == b:
        return
    x, y = ctx.obj(PLAIN[a], 'x'), ctx.obj(PLAIN[b], 'y')
    ctx.cover('compared')
    ctx.prove('different', not answer(interp, x, y))


SAME = z3.Function('SAME_GRAPH', Val, Val, B)


def graphs(interp, args, kwargs):
    ctx = interp.ctx
    a, b = ctx.lift(args[0]), ctx.lift(args[1])
    ctx.events.append(('compared', a, b))
    return SV(Val.bool(SAME(a, b)))


@unit('C20', 'an entity is compared to another one as a graph, and to nothing else',
      covers=['entity', 'value', 'text', 'number', 'none'])
def u_dispatch(ctx, interp):
    ctx.func_contracts[BaseEntity.__dict__['_cached_equals'].__func__] = graphs
    e = ctx.obj(ENTITIES, 'e')
    way = ['entity', 'value', 'text', 'number', 'none'][ctx.choose(5)]
    ctx.cover(way)
    if way == 'entity':
        o = ctx.obj(ENTITIES, 'o')
        r = ctx.lift(interp.eq(e, o))
        ctx.prove('as graphs, or as one object', r == Val.bool(SAME(e.t, o.t)))
        return
    o = {'value': lambda: ctx.obj(PLAIN[ctx.choose(len(PLAIN))], 'v'), 'text': lambda: ctx.any_value('t', [str]),
         'number': lambda: ctx.any_value('n', [int, float]), 'none': lambda: None}[way]()
    ctx.prove('different', not answer(interp, e, o))
    ctx.prove('from the other side too', not answer(interp, o, e))
    ctx.prove('no graph is compared', not [v for v in ctx.events if v[0] == 'compared'])

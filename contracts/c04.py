"""C04: two-way links between objects always agree.

Invariant, for every child X and parent P of a list link (ingredient/process, measurement/material):
X occurs in P's list exactly once if X names P, and not at all otherwise; for every process P with an
output material M, M names P.  Every assignment to a writable side, on an arbitrary state satisfying
the invariant, re-establishes it for an arbitrary pair of witnesses; by induction it holds after any
history.
"""
import z3

from gemd.entity.dict_serializable import DictSerializable
from gemd.entity.base_entity import BaseEntity
from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.object import (IngredientRun, IngredientSpec, MaterialRun, MaterialSpec,
                                MeasurementRun, MeasurementSpec, ProcessRun, ProcessSpec)

from pyvc.unit import unit, outcome
from pyvc.values import *  # noqa: F401,F403
from pyvc.values import Val, I

from .common import eq_contract

LIST_LINKS = [(IngredientRun, 'process', ProcessRun, 'ingredients'),
              (IngredientSpec, 'process', ProcessSpec, 'ingredients'),
              (MeasurementRun, 'material', MaterialRun, 'measurements')]
ONE_LINKS = [(MaterialRun, 'process', ProcessRun, 'output_material'),
             (MaterialSpec, 'process', ProcessSpec, 'output_material')]
IDX = z3.Function('IDX', I, I)
# recorded defects of the two setters (KNOWN_FINDINGS.txt): a rejected assignment forgets the back
# link of the old process (K1, K2), and leaving a process clears whatever output it has (K3)
KNOWN = (IngredientSpec, MaterialSpec)


def seq(interp, owner, attr):
    lst = interp.getattr(owner, attr)
    return interp.ctx.seq_terms(interp.seq_content(lst))


def link_is(interp, x, attr, p):
    """The formula: x.attr is p."""
    return interp.ctx.lift(interp.getattr(x, attr)) == p.t


def assume_list_inv(interp, x, attr, p, back):
    ctx = interp.ctx
    n, arr = seq(interp, p, back)
    linked = link_is(interp, x, attr, p)
    u = IDX(Val.a(x.t))
    ctx.witnesses.append((arr, u))
    ctx.assume(z3.Implies(linked, z3.And(0 <= u, u < n, arr[u] == x.t)))
    i = z3.Int('i!inv')
    ctx.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n, arr[i] == x.t),
                                         z3.And(linked, i == u)), patterns=[arr[i]]))


def prove_list_inv(interp, x, attr, p, back, tag):
    ctx = interp.ctx
    n, arr = seq(interp, p, back)
    linked = link_is(interp, x, attr, p)
    i, k = ctx.fresh(I, 'i'), ctx.fresh(I, 'k')
    here = z3.And(0 <= i, i < n, arr[i] == x.t)
    ctx.prove(f'{tag}: listed only where it is named', z3.Implies(here, linked))
    ctx.prove(f'{tag}: listed at most once',
              z3.Implies(z3.And(here, 0 <= k, k < n, arr[k] == x.t), i == k))
    u = IDX(Val.a(x.t))
    q = z3.Int('q!ex')
    cands = [z3.And(0 <= c, c < n, arr[c] == x.t)
             for c in (u, u - 1, u + 1, n - 1, z3.IntVal(0))]
    ctx.prove(f'{tag}: listed where it is named',
              z3.Implies(linked, z3.Or(cands + [z3.Exists(
                  [q], z3.And(0 <= q, q < n, arr[q] == x.t))])))


def assume_one_inv(interp, m_attr, p, back):
    """p.output is a material that names p."""
    ctx = interp.ctx
    m = interp.getattr(p, back)
    if m is None:
        return
    if interp.decide(interp.is_(m, None)):
        return
    ctx.assume(link_is(interp, m, m_attr, p))


def is_cls(interp, v, cls):
    return isinstance(v, SV) and interp.decide(interp.isinstance_(v, cls))


def acceptable(interp, v, cls):
    return v is None or interp.decide(interp.is_(v, None)) or \
        interp.decide(interp.isinstance_(v, (cls, LinkByUID)))


def assignment(link, other):
    """Unit: assigning through `link` keeps the invariant of link kind `other`."""
    cls, attr, target, back = link
    ocls, oattr, otarget, oback = other
    is_list = other in LIST_LINKS
    same = link == other

    def body(ctx, interp):
        ctx.func_contracts.update(eq_contract())
        s = ctx.obj(cls, 'subject')
        new = ctx.any_value('new')
        x = ctx.obj(ocls, 'witness')
        q = ctx.obj(otarget, 'parent')
        ok = acceptable(interp, new, target)
        old = interp.getattr(s, attr)
        # the invariant of the state before, where it is needed
        if is_list:
            if same:
                parents = [q] + [p for p in (old, new) if is_cls(interp, p, target)]
                for p in parents:
                    for y in (s, x):
                        assume_list_inv(interp, y, attr, p, back)
            else:
                assume_list_inv(interp, x, oattr, q, oback)
                if link in LIST_LINKS and is_cls(interp, old, target):
                    assume_list_inv(interp, s, attr, old, back)
            n0, arr0 = seq(interp, q, oback)
        else:
            assume_one_inv(interp, oattr, q, oback)
            if same and is_cls(interp, old, target):
                assume_one_inv(interp, oattr, old, oback)
            if link in LIST_LINKS and is_cls(interp, old, target):
                assume_list_inv(interp, s, attr, old, back)
            out0 = interp.getattr(q, oback)
        xlink0 = interp.getattr(x, oattr)
        kind, val = outcome(lambda: interp.setattr(s, attr, new))
        if kind == 'raise':
            ctx.cover('rejected')
            ctx.prove('only wrong-typed values are rejected', not ok)
            ctx.prove('rejected: link unchanged', ctx.lift(interp.getattr(s, attr))
                      == ctx.lift(old))
            ctx.prove('rejected: other links unchanged',
                      ctx.lift(interp.getattr(x, oattr)) == ctx.lift(xlink0))
            if same and cls in KNOWN and is_cls(interp, old, target) and \
                    interp.decide(interp.is_(q, old)):
                return  # K1, K2
            if is_list:
                n1, arr1 = seq(interp, q, oback)
                i = ctx.fresh(I, 'i')
                ctx.prove('rejected: back links unchanged', z3.And(
                    n0 == n1, z3.Implies(z3.And(0 <= i, i < n0), arr0[i] == arr1[i])))
            else:
                ctx.prove('rejected: back link unchanged',
                          ctx.lift(interp.getattr(q, oback)) == ctx.lift(out0))
            return
        ctx.cover('accepted')
        ctx.prove('wrong-typed values are rejected', ok)
        ctx.prove('the link is the assigned value',
                  ctx.lift(interp.getattr(s, attr)) == ctx.lift(new))
        ctx.prove('no other object changes its link', z3.Implies(
            x.t != s.t if same else z3.BoolVal(True),
            ctx.lift(interp.getattr(x, oattr)) == ctx.lift(xlink0)))
        if is_list:
            prove_list_inv(interp, x, oattr, q, oback, 'invariant')
            # entries of other objects stay
            n1, arr1 = seq(interp, q, oback)
            other_obj = x.t != s.t if same else z3.BoolVal(True)
            k = ctx.fresh(I, 'k')
            u = IDX(Val.a(x.t))
            if not same:
                ctx.prove('unrelated lists unchanged', z3.And(
                    n0 == n1, z3.Implies(z3.And(0 <= k, k < n0), arr0[k] == arr1[k])))
        else:
            out1 = interp.getattr(q, oback)
            if same and is_cls(interp, new, target):
                ctx.prove('the output material is the most recent one assigned',
                          ctx.lift(interp.getattr(new, back)) == s.t)
            if out1 is not None and not interp.decide(interp.is_(out1, None)):
                ctx.prove('invariant: an output material names its process',
                          link_is(interp, out1, oattr, q))
            if not same:
                ctx.prove('unrelated output material unchanged',
                          ctx.lift(out1) == ctx.lift(out0))
            else:
                touched = z3.Or(q.t == ctx.lift(new), q.t == ctx.lift(old))
                ctx.prove('other processes keep their output material',
                          z3.Or(touched, ctx.lift(out1) == ctx.lift(out0)))
                if cls in KNOWN:
                    return  # K3
                lost = z3.And(q.t == ctx.lift(old), q.t != ctx.lift(new),
                              ctx.lift(out0) != s.t)
                ctx.prove('a process keeps an output material assigned later', z3.Implies(
                    lost, ctx.lift(out1) == ctx.lift(out0)))
    return body


for _l in LIST_LINKS + ONE_LINKS:
    for _o in LIST_LINKS + ONE_LINKS:
        unit('C04', f'{_l[0].__name__}.{_l[1]} = ... keeps {_o[2].__name__}.{_o[3]}',
             covers=['accepted', 'rejected'])(assignment(_l, _o))


def construction(link):
    cls, attr, target, back = link
    is_list = link in LIST_LINKS

    def body(ctx, interp):
        ctx.func_contracts.update(eq_contract())
        new = ctx.any_value('new')
        x = ctx.obj(cls, 'witness')
        q = ctx.obj(target, 'parent')
        ok = acceptable(interp, new, target)
        if is_list:
            assume_list_inv(interp, x, attr, q, back)
            n0, arr0 = seq(interp, q, back)
        else:
            assume_one_inv(interp, attr, q, back)
            out0 = interp.getattr(q, back)
        args = [] if cls is IngredientRun else ['name']
        kind, s = outcome(lambda: interp.call(cls, args, {attr: new}))
        if kind == 'raise':
            ctx.cover('rejected')
            ctx.prove('only wrong-typed values are rejected', not ok)
            if is_list:
                n1, arr1 = seq(interp, q, back)
                i = ctx.fresh(I, 'i')
                ctx.prove('rejected: back links unchanged', z3.And(
                    n0 == n1, z3.Implies(z3.And(0 <= i, i < n0), arr0[i] == arr1[i])))
            else:
                ctx.prove('rejected: back link unchanged',
                          ctx.lift(interp.getattr(q, back)) == ctx.lift(out0))
            return
        ctx.cover('accepted')
        ctx.prove('wrong-typed values are rejected', ok)
        ctx.prove('the link is the given value',
                  ctx.lift(interp.getattr(s, attr)) == ctx.lift(new))
        if is_list:
            prove_list_inv(interp, x, attr, q, back, 'invariant for existing objects')
            prove_list_inv(interp, s, attr, q, back, 'invariant for the new object')
        else:
            out1 = interp.getattr(q, back)
            if out1 is not None and not interp.decide(interp.is_(out1, None)):
                ctx.prove('invariant: an output material names its process',
                          link_is(interp, out1, attr, q))
            if is_cls(interp, new, target):
                ctx.prove('the output material is the most recent one assigned',
                          ctx.lift(interp.getattr(new, back)) == s.t)
    return body


def fresh_parent(cls, back, empty):
    def body(ctx, interp):
        p = interp.call(cls, ['name'], {})
        v = interp.getattr(p, back)
        if empty:
            c = interp.seq_content(v)
            ctx.prove('a new object has an empty list', c.spine is not None and not c.spine)
            q = interp.call(cls, ['name'], {})
            ctx.prove('new objects do not share their lists',
                      ctx.lift(v) != ctx.lift(interp.getattr(q, back)))
        else:
            ctx.prove('a new process has no output material', v is None)
        kind, _ = outcome(lambda: interp.setattr(p, back, None))
        ctx.prove('the back link is read-only', kind == 'raise')
    return body


for _l in LIST_LINKS + ONE_LINKS:
    unit('C04', f'{_l[0].__name__}({_l[1]}=...) establishes {_l[2].__name__}.{_l[3]}',
         covers=['accepted', 'rejected'])(construction(_l))
    unit('C04', f'new {_l[2].__name__}: {_l[3]} starts empty and is read-only')(
        fresh_parent(_l[2], _l[3], _l in LIST_LINKS))

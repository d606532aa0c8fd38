"""Representation invariant and abstract view of the case-insensitive identifier map.

Everything known of a map is a statement about an arbitrary key; it is registered with the engine and
instantiated at the keys that are looked up (ctx.map_hooks), so the obligations are quantifier-free.
"""
import z3

from pyvc.loops import LoopRule
from pyvc.models import KPOS, LOWER
from pyvc.values import *  # noqa: F401,F403
from pyvc.values import Val


def low(k):
    return Val.str(LOWER(Val.s(k)))


def state(interp, d):
    """(stored keys, values, folded keys, spelling of each folded key)."""
    ctx = interp.ctx
    dom, m = ctx.map_terms(interp.map_content(d))
    ld = interp.getattr(d, 'lowercase_dict')
    ldom, lm = ctx.map_terms(interp.map_content(ld))
    return dom, m, ldom, lm


def at_key(st, k):
    dom, m, ldom, lm = st
    return z3.Implies(dom[k], z3.And(Val.is_str(k), ldom[low(k)], lm[low(k)] == k))


def at_low(st, l):
    dom, m, ldom, lm = st
    return z3.Implies(ldom[l], z3.And(Val.is_str(l), dom[lm[l]], Val.is_str(lm[l]),
                                      low(lm[l]) == l))


def touch(interp, st, *keys):
    """Instantiate what is known at these keys, their folded forms and the stored spellings, in
    every state looked at so far."""
    ctx = interp.ctx
    spell = ctx.memo.setdefault(('uidmap', 'spellings'), [])
    if not any(s.eq(st[3]) for s in spell):
        ctx.memo[('uidmap', 'spellings')] = spell = spell + [st[3]]
    for k in keys:
        k = z3.simplify(k)
        l = low(k)
        ctx.inst_all(k, l)
        for s in spell:
            p = z3.simplify(s[l])
            ctx.inst_all(p, low(p))
            for s2 in spell:
                if not s2.eq(s):
                    q = z3.simplify(s2[low(p)])
                    ctx.inst_all(q, low(q))


def assume_inv(interp, d, *others):
    """The representation invariant of an existing map whose private dict is shared with no one."""
    ctx = interp.ctx
    ctx.ground_maps = True
    ld = interp.getattr(d, 'lowercase_dict')
    for o in (d,) + others:
        if isinstance(o, SV):
            ctx.assume(o.t != ld.t)
    st = state(interp, d)
    ctx.map_hooks.append((st[0], lambda t: at_key(st, t)))
    ctx.map_hooks.append((st[2], lambda t: at_low(st, t)))
    return st


def prove_inv(interp, d, tag='invariant'):
    ctx = interp.ctx
    st = state(interp, d)
    k, l, k2 = ctx.fresh(Val, 'k'), ctx.fresh(Val, 'l'), ctx.fresh(Val, 'k2')
    touch(interp, st, k, l, k2)
    s = st[3][l]
    ctx.inst_all(s, low(s), st[3][low(s)])
    ctx.prove(f'{tag}: every stored scope is found by its folded form', at_key(st, k))
    ctx.prove(f'{tag}: every folded form names a stored scope', at_low(st, l))
    ctx.prove(f'{tag}: no two stored scopes differ only in case', z3.Implies(
        z3.And(st[0][k], st[0][k2], low(k) == low(k2)), k == k2))
    return st


def has(interp, st, w):
    """Whether the map has the scope w, in any spelling."""
    touch(interp, st, w)
    return st[2][low(w)]


def value(interp, st, w):
    touch(interp, st, w)
    return st[1][st[3][low(w)]]


def string_keys(ctx, dom):
    """All keys are strings."""
    ctx.map_hooks.append((dom, lambda t: z3.Implies(dom[t], Val.is_str(t))))


class Register(LoopRule):
    """for key in <map>: register key in the private dict of folded keys."""

    name = 'registration'

    def match(self, interp, stmt, seq, env, mods):
        return mods is not None and len(mods.contents) == 1 and not mods.fields \
            and not mods.globals and isinstance(env.vars.get('self'), SV)

    def setup(self, interp, seq, env):
        self.owner = env.vars['self']
        self.dom, _, self.ldom0, self.lm0 = state(interp, self.owner)
        src = seq[3]
        self.src, _ = interp.ctx.map_terms(interp.map_content(src))

    def facts(self, interp, st, i):
        """What holds of every key k and every folded form l after i iterations."""
        dom, m, ldom, lm = st
        src = self.src

        def reg(k):
            return z3.Implies(z3.And(src[k], KPOS(src, k) < i),
                              z3.And(ldom[low(k)], lm[low(k)] == k))

        def only(l):
            ks = interp.ctx.map_keys
            if not any(k.eq(lm[l]) for k in ks):
                ks.append(lm[l])
            return z3.Implies(z3.And(ldom[l], z3.Not(self.ldom0[l])), z3.And(
                Val.is_str(l), Val.is_str(lm[l]), low(lm[l]) == l, src[lm[l]]))

        def keep(l):
            return z3.Implies(self.ldom0[l], z3.And(ldom[l], lm[l] == self.lm0[l]))
        return [('processed scopes are registered', src, reg),
                ('registered scopes were given', ldom, only),
                ('earlier registrations stay', ldom, keep)]

    def prove_inv(self, interp, i, seq, env, when):
        ctx = interp.ctx
        st = state(interp, self.owner)
        k = ctx.fresh(Val, 'k')
        touch(interp, st, k)
        s = st[3][k]
        ctx.inst_all(s, low(s))
        for label, _, fn in self.facts(interp, st, i):
            ctx.prove(f'{self.name}: {label} {when}', fn(k))

    def assume_inv(self, interp, i, seq, env):
        ctx = interp.ctx
        st = state(interp, self.owner)
        for label, base, fn in self.facts(interp, st, i):
            ctx.map_hooks.append((base, fn))
        for base, fn in list(ctx.map_hooks):
            if base.eq(self.ldom0):
                ctx.map_hooks.append((st[2], fn))

"""Loops and comprehensions over sequences of unknown length.

An iteration is explored once for a generic index j.  Its paths are turned into a formula about j
(with every symbol introduced on the way turned into a function of j) that holds for all completed
iterations.  Loops without effects are summarised by a search: they leave at the first index at
which the body leaves, or complete.  Loops with effects need either one of the built-in closed
forms (in-place map, accumulation into a list, set or dict, running minimum/maximum) or a
registered invariant, which is proved to hold initially and to be preserved by the body.
"""
import ast

import z3

from .ctx import MISSING, PathAbort, PyRaise, Unsupported, has_quant
from .values import *  # noqa: F401,F403
from .values import UNIVERSE


class Escape(Unsupported):
    pass


# ---------------------------------------------------------------- Skolemisation
def skolemise(ctx, formulas, fresh, j):
    """Turn symbols introduced in a generic iteration into functions of the index."""
    consts, funs = [], []
    for c in fresh:
        if isinstance(c, z3.FuncDeclRef) and c.arity() > 0:
            sorts = [c.domain(i) for i in range(c.arity())]
            g = ctx.fresh_fun(c.name() + '@', I, *sorts, c.range())
            body = g(j, *[z3.Var(i, s) for i, s in enumerate(sorts)])
            funs.append((c, body))
        else:
            g = ctx.fresh_fun(str(c) + '@', I, c.sort())
            consts.append((c, g(j)))
    out = []
    for f in formulas:
        if consts:
            f = z3.substitute(f, *consts)
        if funs:
            f = z3.substitute_funs(f, *funs)
        out.append(f)
    return out


_ref_cache = {}


def mentions_new(term, addr_hi):
    """Whether a term refers to an object allocated at or below address addr_hi (negative)."""
    seen = set()
    stack = [term]
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t) and t.decl().name() == 'ref' and t.num_args() == 1 \
                and z3.is_int_value(t.arg(0)) and t.arg(0).as_long() <= addr_hi:
            return True
        stack.extend(t.children())
        if z3.is_quantifier(t):
            stack.append(t.body())
    return False


class Path:
    """One path of a generic iteration."""

    def __init__(self, facts, fresh, outcome, snap):
        self.facts, self.fresh, self.outcome, self.snap = facts, fresh, outcome, snap


def explore(ctx, thunk, limit=400):
    return [Path(*r) for r in ctx.explore_local(thunk, limit)]


def range_fact(j, lo, hi):
    return z3.And(lo <= j, j < hi)


# ---------------------------------------------------------------- effects
class Mods:
    """What an iteration changed, relative to the state before it."""

    def __init__(self):
        self.vars = {}      # (env, name) -> True
        self.fields = {}    # (addr repr, f) -> (addr, f)
        self.contents = {}  # addr repr -> (addr, kind)
        self.globals = set()
        self.logs = False

    def empty(self):
        return not (self.fields or self.contents or self.globals)


def addr_key(a):
    return a if isinstance(a, int) else ('t', a.get_id())


def diff(ctx, before, path, addr_lo, locals_):
    """Effects of a path: variables, fields and contents changed outside the iteration's own
    allocations (addresses below addr_lo are allocated by the iteration)."""
    m = Mods()
    for (e, vs) in path.snap['envs']:
        old = next((v for (e2, v) in before['envs'] if e2 is e), None)
        if old is None:
            continue
        for k, v in vs.items():
            if k not in old or (old[k] is not v and not same_value(ctx, old[k], v)):
                m.vars[(id(e), k)] = (e, k)
    for f, log in path.snap['fields'].items():
        for a, v in log[len(before['fields'].get(f, [])):]:
            if isinstance(a, int) and a <= addr_lo:
                continue
            m.fields[(addr_key(a), f)] = (a, f)
    for a, c in path.snap['contents'][len(before['contents']):]:
        if isinstance(a, int) and a <= addr_lo:
            continue
        m.contents[addr_key(a)] = (a, type(c))
    for k, v in path.snap['globals_'].items():
        if k not in before['globals_'] or before['globals_'][k] is not v:
            m.globals.add(k)
    for ev in path.snap['events'][len(before['events']):]:
        if ev[0] == 'log':
            m.logs = True
    return m


def same_value(ctx, a, b):
    if isinstance(a, SV) and isinstance(b, SV):
        return a.t.eq(b.t)
    if isinstance(a, SV) or isinstance(b, SV):
        return False
    if isinstance(a, STuple) and isinstance(b, STuple):
        return len(a.items) == len(b.items) and all(same_value(ctx, x, y)
                                                    for x, y in zip(a.items, b.items))
    return a is b


def merge(ms):
    out = Mods()
    for m in ms:
        out.vars.update(m.vars)
        out.fields.update(m.fields)
        out.contents.update(m.contents)
        out.globals |= m.globals
        out.logs = out.logs or m.logs
    return out


# ---------------------------------------------------------------- the for statement
def run_body(interp, stmt, value, env):
    from .interp import BreakEx, ContinueEx
    interp.assign(stmt.target, value, env)
    try:
        interp.exec_block(stmt.body, env)
    except ContinueEx:
        return
    except BreakEx:
        raise


def body_outcome(interp, stmt, value, env):
    from .interp import BreakEx, ReturnEx
    try:
        run_body(interp, stmt, value, env)
    except BreakEx:
        return ('break',)
    except ReturnEx as r:
        return ('return', r.value)
    except PyRaise as e:
        return ('raise', e.exc)
    return ('next',)


def forall_next(ctx, j, lo, hi, paths, extra=None):
    """For all j in [lo, hi): some completed path (its facts hold)."""
    alts = []
    for p in paths:
        fs = list(p.facts)
        if extra is not None:
            fs += extra(p)
        fs = skolemise(ctx, fs, [c for c in p.fresh if not (z3.is_expr(c) and c.eq(j))], j)
        alts.append(z3.And(fs) if fs else z3.BoolVal(True))
    body = z3.Or(alts) if alts else z3.BoolVal(False)
    body = z3.simplify(body, som=False) if False else body
    return z3.Implies(range_fact(j, lo, hi), body)


def add_forall(ctx, j, lo, hi, formula, el):
    """Assume a formula for every j, and register it for instantiation at elements read later."""
    ctx.assume(z3.ForAll([j], formula))
    ctx.element_lemmas.append((j, formula, el))
    from .models import _mentions
    for arr, idx in ctx.witnesses:
        if _mentions(formula, arr):
            ctx.assume(z3.substitute(formula, (j, idx)))


def loop_search(interp, n, el, body, at_exit, paths, j, on_complete):
    """Shared search summary: exit at the first index where the body leaves, or complete."""
    ctx = interp.ctx
    nexts = [p for p in paths if p.outcome[0] == 'next']
    exits = [p for p in paths if p.outcome[0] != 'next']
    if exits and ctx.choose(2) == 1:
        i = ctx.fresh(I, 'exit')
        ctx.assume(range_fact(i, 0, n))
        if nexts:
            add_forall(ctx, j, z3.IntVal(0), i, forall_next(ctx, j, z3.IntVal(0), i, nexts), el)
        else:
            ctx.assume(i == 0)
        if not ctx.feasible():
            raise PathAbort()
        return at_exit(i)
    if nexts:
        add_forall(ctx, j, z3.IntVal(0), n, forall_next(ctx, j, z3.IntVal(0), n, nexts), el)
    else:
        ctx.assume(n <= 0)
    if not ctx.feasible():
        raise PathAbort()
    return on_complete()


def for_abstract(interp, stmt, seq, env):
    ctx = interp.ctx
    _, n, el, src = seq
    if not ctx.branch(n > 0):
        interp.exec_block(stmt.orelse, env)
        return
    before = ctx.snapshot()
    addr_lo = ctx.next_addr
    j = ctx.fresh(I, 'j')
    base = ctx.snapshot()

    def thunk():
        ctx.assume(range_fact(j, 0, n))
        return body_outcome(interp, stmt, el(j), env)
    for rule in ctx.loop_rules:
        if getattr(rule, 'eager', False) and rule.match(interp, stmt, seq, env, None):
            return invariant_loop(interp, stmt, seq, env, rule, None, before)
    paths = explore(ctx, thunk)
    nexts = [p for p in paths if p.outcome[0] == 'next']
    mods = merge([diff(ctx, base, p, addr_lo, None) for p in nexts])
    for rule in ctx.loop_rules:
        if rule.match(interp, stmt, seq, env, mods):
            return invariant_loop(interp, stmt, seq, env, rule, mods, before)
    outer = {k: v for k, v in mods.vars.items()
             if v[1] in next((vs for e, vs in base['envs'] if e is v[0]), {})}
    target_names = {x.id for x in ast.walk(stmt.target) if isinstance(x, ast.Name)}
    carried = {k: v for k, v in outer.items() if not (v[0] is env and v[1] in target_names)}
    carried = {k: v for k, v in carried.items() if reads_before_write(stmt, v[1])}
    if mods.empty() and not carried:
        def at_exit(i):
            from .interp import BreakEx
            try:
                run_body(interp, stmt, el(i), env)
            except BreakEx:
                return
            raise PathAbort()

        def on_complete():
            for k, (e, name) in mods.vars.items():
                e.vars[name] = Poison("assigned in a loop")
            for t in target_names:
                env.vars[t] = Poison("loop variable")
            if mods.logs:
                ctx.events.append(('log-maybe', None))
            interp.exec_block(stmt.orelse, env)
        loop_search(interp, n, el, None, at_exit, paths, j, on_complete)
        return
    closed_form(interp, stmt, seq, env, paths, mods, carried, before, base, j, addr_lo,
                target_names)


def reads_before_write(stmt, name):
    """Conservative: whether the body may read the variable's value from the previous iteration
    (or it is read after the loop, which poisoning covers)."""
    loads = stores = 0
    for s in stmt.body:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and x.id == name:
                if isinstance(x.ctx, ast.Load):
                    loads += 1
    if loads == 0:
        for s in stmt.body:
            for x in ast.walk(s):
                if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) \
                        and x.target.id == name:
                    return True
        return False
    # assigned unconditionally at the top level before any load?
    for s in stmt.body:
        names_loaded = {x.id for x in ast.walk(s.value) if isinstance(x, ast.Name)} \
            if isinstance(s, ast.Assign) else None
        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name
                                             for t in s.targets) and name not in names_loaded:
            return False
        if any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(s)):
            return True
    return True


# ---------------------------------------------------------------- invariants
def havoc(interp, mods, rule=None):
    """Replace everything an iteration may change by arbitrary contents."""
    ctx = interp.ctx
    for k, (e, name) in mods.vars.items():
        t = ctx.fresh(Val, name)
        ctx.touch(t)
        e.vars[name] = SV(t)
    for k, (a, f) in mods.fields.items():
        t = ctx.fresh(Val, f)
        ctx.touch(t)
        ctx.fields.setdefault(f, []).append((a, SV(t)))
    for k, (a, kind) in mods.contents.items():
        ctx.contents.append((a, fresh_content(ctx, kind)))
    for key in mods.globals:
        t = ctx.fresh(Val, key[1])
        ctx.touch(t)
        ctx.globals_[key] = SV(t)


def fresh_content(ctx, kind):
    if kind is CSeq:
        n = ctx.fresh(I, 'len')
        ctx.assume(n >= 0)
        return CSeq(n=n, arr=ctx.fresh(SeqArr, 'arr'))
    if kind is CMap:
        return CMap(dom=ctx.fresh(DomArr, 'dom'), map=ctx.fresh(MapArr, 'map'))
    return CSet(dom=ctx.fresh(DomArr, 'dom'))


class LoopRule:
    """A loop invariant: match() recognises the loop by what it modifies; inv() states it."""

    name = 'loop'

    def match(self, interp, stmt, seq, env, mods):
        return False

    def inv(self, interp, i, seq, env):
        """A list of (label, formula) about the current state after i iterations."""
        return []

    def setup(self, interp, seq, env):
        """Called once before the loop; may record ghost state."""

    def havoced(self, interp, seq, env):
        """Called after havoc, to give python-level structure to havoced state."""

    def prove_inv(self, interp, i, seq, env, when):
        for label, f in self.inv(interp, i, seq, env):
            interp.ctx.prove(f"{self.name}: {label} {when}", f)

    def assume_inv(self, interp, i, seq, env):
        for label, f in self.inv(interp, i, seq, env):
            interp.ctx.assume(f)


def invariant_loop(interp, stmt, seq, env, rule, mods, before):
    ctx = interp.ctx
    _, n, el, src = seq
    rule.setup(interp, seq, env)
    if mods is None:
        mods = rule.mods(interp, stmt, seq, env)
    target_names = {x.id for x in ast.walk(stmt.target) if isinstance(x, ast.Name)}
    locals_ = {k for k, v in mods.vars.items() if v[1] in target_names
               or not any(e is v[0] and v[1] in vs for e, vs in before['envs'])}
    rule.prove_inv(interp, z3.IntVal(0), seq, env, 'holds initially')
    m2 = Mods()
    m2.vars = {k: v for k, v in mods.vars.items() if k not in locals_}
    m2.fields, m2.contents, m2.globals = mods.fields, mods.contents, mods.globals
    which = ctx.choose(2)
    havoc(interp, m2, rule)
    if which == 0:
        # after all iterations
        rule.havoced(interp, seq, env)
        rule.assume_inv(interp, n, seq, env)
        for k in locals_:
            e, name = mods.vars[k]
            e.vars[name] = Poison("assigned in a loop")
        for t in target_names:
            env.vars[t] = Poison("loop variable")
        interp.exec_block(stmt.orelse, env)
        return
    from .interp import BreakEx
    i = ctx.fresh(I, 'i')
    ctx.assume(range_fact(i, 0, n))
    rule.havoced(interp, seq, env)
    rule.assume_inv(interp, i, seq, env)
    try:
        run_body(interp, stmt, el(i), env)
    except BreakEx:
        return
    rule.prove_inv(interp, i + 1, seq, env, 'is preserved')
    raise PathAbort()


# ---------------------------------------------------------------- closed forms
def only(seq):
    return seq[0] if len(seq) == 1 else None


def closed_form(interp, stmt, seq, env, paths, mods, carried, before, base, j, addr_lo,
                target_names):
    """Loops whose only effects are recognised accumulations."""
    ctx = interp.ctx
    _, n, el, src = seq
    if mods.fields or mods.globals:
        raise Unsupported("loop with effects on fields and no invariant")
    # accumulated containers: recorded as operations on each path
    accs = list(mods.contents.values())
    for a, kind in accs:
        if not isinstance(a, int) and a.get_id() and _depends(a, j):
            raise Unsupported("loop updates a different container in each iteration")
    # re-explore with the modified state havoced, so that dependence on it shows
    names = {}
    for k, (e, name) in carried.items():
        old = e.vars[name]
        names[k] = (e, name, old)
    hav = {}
    mark = {}
    # numbers stay finite numbers of the same class (proved of every update in finish_extrema)
    finite = {}
    for k, (e, name, old) in names.items():
        for c, f in ((int, Val.is_int), (float, Val.is_flt)):
            if ctx.candidates(old) == {c} and ctx.entails(f(ctx.lift(old))):
                finite[k] = f

    def thunk():
        ctx.assume(range_fact(j, 0, n))
        for (a, kind) in accs:
            cur = ctx.lookup_log([(x, c) for x, c in ctx.contents if isinstance(c, kind)], a)
            c = mark.get(addr_key(a))
            if c is None:
                c = fresh_content(ctx, kind)
                if kind is CSeq and in_place[addr_key(a)]:
                    m, arr = ctx.seq_terms(cur)
                    # elements at and after j are the original ones
                    q = z3.Int('q!ip')
                    ctx.assume(c.n == m)
                    ctx.assume(z3.Implies(z3.And(0 <= j, j < m), c.arr[j] == arr[j]))
                mark[addr_key(a)] = c
            ctx.contents.append((a, c))
        for k, (e, name, old) in names.items():
            if k not in hav:
                t = ctx.fresh(Val, name)
                hav[k] = t
            ctx.touch(hav[k])
            cs = ctx.candidates(old)
            ctx.narrow(hav[k], cs)
            if k in finite:
                ctx.assume(finite[k](hav[k]))
            e.vars[name] = SV(hav[k])
        return body_outcome(interp, stmt, el(j), env)
    in_place = {}
    for a, kind in accs:
        in_place[addr_key(a)] = isinstance(src, SV) and kind is CSeq and \
            ctx.same_addr(ctx.addr(src), a) is True
    saved_mark = ctx.snapshot()
    # allocate the havoc symbols outside the exploration so that they are not Skolemised
    for (a, kind) in accs:
        c = fresh_content(ctx, kind)
        cur = ctx.lookup_log([(x, cc) for x, cc in ctx.contents if isinstance(cc, kind)], a)
        if cur is MISSING:
            cur = ctx.get_content(SV(Val.ref(ctx.at(a))), kind)
        mark[addr_key(a)] = c
        hav[('old', addr_key(a))] = cur
        if in_place[addr_key(a)]:
            m, arr = ctx.seq_terms(cur)
            ctx.assume(c.n == m)
    for k, (e, name, old) in names.items():
        hav[k] = ctx.fresh(Val, name)
    nhav = {addr_key(a): mark[addr_key(a)] for a, _ in accs}

    def thunk2():
        for (a, kind) in accs:
            c = nhav[addr_key(a)]
            if in_place[addr_key(a)]:
                cur = hav[('old', addr_key(a))]
                m, arr = ctx.seq_terms(cur)
                ctx.assume(z3.Implies(z3.And(0 <= j, j < m), c.arr[j] == arr[j]))
        return thunk()
    paths = explore(ctx, thunk2)
    nexts = [p for p in paths if p.outcome[0] == 'next']
    exits = [p for p in paths if p.outcome[0] != 'next']
    havsyms = [c.arr if isinstance(c, CSeq) else c.dom for c in nhav.values()] + \
        [c.map for c in nhav.values() if isinstance(c, CMap)] + \
        [c.n for c in nhav.values() if isinstance(c, CSeq) and c.n is not None
         and not any(in_place.values())] + [hav[k] for k in names]
    # what each path does to each container
    ops = []
    for p in nexts:
        d = {}
        for a, kind in accs:
            last = None
            for x, c in reversed(p.snap['contents']):
                if isinstance(c, kind) and ctx.same_addr(x, a) is True:
                    last = c
                    break
            d[addr_key(a)] = recognise(ctx, kind, nhav[addr_key(a)], last, j,
                                       in_place[addr_key(a)])
        ops.append(d)
    # running extrema: a carried variable either stays or takes a value not depending on state
    var_updates = {}
    for k, (e, name, old) in names.items():
        ups = []
        for p in nexts:
            vs = next(v for (ee, v) in p.snap['envs'] if ee is e)
            ups.append(vs[name])
        var_updates[k] = ups
    dep_ok = all(not _depends_any(f, havsyms) for p in paths for f in p.facts) \
        if not names else True
    if not names:
        if not dep_ok:
            # facts about the in-place element itself are fine
            if not all(in_place.values()):
                raise Unsupported("loop condition depends on the accumulated state")
        return finish_accumulate(interp, stmt, seq, env, nexts, exits, ops, accs, nhav, hav,
                                 in_place, mods, j, target_names, addr_lo)
    if accs or exits and False:
        raise Unsupported("mixed accumulators")
    return finish_extrema(interp, stmt, seq, env, nexts, exits, names, var_updates, hav, mods, j,
                          target_names, finite)


def _depends(t, sym):
    return _depends_any(t, [sym])


_parts_cache = {}


def _parts(t):
    """The ids of all subterms of a formula (kept: the formula stays alive with them)."""
    hit = _parts_cache.get(t.get_id())
    if hit is not None:
        return hit[0]
    if len(_parts_cache) > 20000:
        _parts_cache.clear()
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            stack.append(x.body())
        else:
            stack.extend(x.children())
    _parts_cache[t.get_id()] = (frozenset(seen), t)
    return frozenset(seen)


def _depends_any(t, syms):
    parts = _parts(t)
    return any(s.get_id() in parts for s in syms)


def is_lambda(t):
    return z3.is_quantifier(t) and t.is_lambda()


class Members:
    """All members k of another set: formula is about k."""

    def __init__(self, k, formula):
        self.k, self.formula = k, formula

    def at(self, k):
        return z3.substitute(self.formula, (self.k, k))


def recognise(ctx, kind, before, after, j, in_place):
    """The operation that turned the havoced contents `before` into `after`."""
    if after is before or after is None:
        return ('keep',)
    if kind is CSet:
        d = after.dom
        adds = []
        while d is not None and not d.eq(before.dom):
            if is_lambda(d):
                # the union of the set with another one
                k0 = z3.FreshConst(Val, 'k')
                body = z3.substitute_vars(d.body(), k0)
                if not (z3.is_or(body) and body.num_args() == 2 and z3.is_select(body.arg(0))
                        and body.arg(0).arg(1).eq(k0)):
                    raise Unsupported("unrecognised set update in a loop")
                adds.append(Members(k0, body.arg(1)))
                d = body.arg(0).arg(0)
            elif z3.is_app(d) and d.decl().kind() == z3.Z3_OP_STORE and \
                    z3.is_true(z3.simplify(d.arg(2))):
                adds.append(d.arg(1))
                d = d.arg(0)
            else:
                raise Unsupported("unrecognised set update in a loop")
        return ('add', adds)
    if kind is CMap:
        d, m = after.dom, after.map
        sets, dels = [], []
        while not d.eq(before.dom):
            if d.decl().kind() == z3.Z3_OP_STORE and z3.is_false(z3.simplify(d.arg(2))):
                dels.append(d.arg(1))
                d = d.arg(0)
            elif d.decl().kind() == z3.Z3_OP_STORE and z3.is_true(z3.simplify(d.arg(2))) and \
                    m.decl().kind() == z3.Z3_OP_STORE and m.arg(1).eq(d.arg(1)):
                sets.append((d.arg(1), m.arg(2)))
                d, m = d.arg(0), m.arg(0)
            else:
                raise Unsupported("unrecognised dict update in a loop")
        if not m.eq(before.map):
            raise Unsupported("unrecognised dict update in a loop")
        if dels and sets:
            raise Unsupported("a loop adds to and removes from the same mapping")
        if dels:
            return ('del', dels)
        return ('set', list(reversed(sets)))
    if in_place:
        arr = after.arr
        if arr.decl().kind() == z3.Z3_OP_STORE and arr.arg(0).eq(before.arr) and \
                z3.simplify(arr.arg(1)).eq(j):
            return ('map', arr.arg(2))
        raise Unsupported("unrecognised in-place list update")
    arr = after.arr
    items = []
    while not arr.eq(before.arr):
        if arr.decl().kind() == z3.Z3_OP_STORE:
            items.append(arr.arg(2))
            arr = arr.arg(0)
        else:
            raise Unsupported("unrecognised list update in a loop")
    want = z3.simplify(before.n + len(items))
    if not z3.simplify(after.n).eq(want):
        raise Unsupported("unrecognised list update in a loop")
    return ('append', list(reversed(items)))


def note_origin(ctx, pos, k, fact):
    """Note that a member comes from the iteration at its position (see origins)."""
    ctx.memo[('origins',)] = ctx.memo.get(('origins',), ()) + ((pos, k, fact),)


def origins(ctx, x):
    """The positions a member may come from, with what is known of it stated."""
    out = []
    for pos, k, fact in ctx.memo.get(('origins',), ()):
        ctx.assume(z3.substitute(fact, (k, x)))
        out.append(pos(x))
    return out


def finish_accumulate(interp, stmt, seq, env, nexts, exits, ops, accs, nhav, hav, in_place, mods,
                      j, target_names, addr_lo):
    ctx = interp.ctx
    _, n, el, src = seq
    for p, d in zip(nexts, ops):
        for op in d.values():
            vals = []
            if op[0] in ('add', 'append'):
                vals = [x.formula if isinstance(x, Members) else x for x in op[1]]
            elif op[0] == 'del':
                vals = op[1]
            elif op[0] == 'set':
                vals = [x for kv in op[1] for x in kv]
            elif op[0] == 'map':
                vals = [op[1]]
            if any(mentions_new(v, addr_lo) for v in vals):
                raise Escape("an object created in a loop is stored outside it")
    if exits and ctx.choose(2) == 1:
        hi = ctx.fresh(I, 'exit')
        ctx.assume(range_fact(hi, 0, n))
        leaving = True
    else:
        hi = n
        leaving = False
    new = {}
    links = {}
    for a, kind in accs:
        key = addr_key(a)
        old = hav[('old', key)]
        if kind is CSeq and in_place[key]:
            m, arr = ctx.seq_terms(old)
            c = CSeq(n=m, arr=ctx.fresh(SeqArr, 'mapped'))
            q = z3.Int('q!ip')
            ctx.assume(z3.ForAll([q], z3.Implies(z3.Or(q < 0, q >= hi), c.arr[q] == arr[q]),
                                 patterns=[c.arr[q]]))
            links[key] = ('map', c, arr)
        elif kind is CSeq:
            m, arr = ctx.seq_terms(old)
            if nexts and all(d[key][0] == 'append' and len(d[key][1]) == 1 for d in ops):
                # one element is appended by every iteration, so element j by iteration j
                c = CSeq(n=z3.simplify(m + hi), arr=ctx.fresh(SeqArr, 'acc'))
                q = z3.Int('q!ac')
                ctx.assume(z3.ForAll([q], z3.Implies(q < m, c.arr[q] == arr[q]),
                                     patterns=[c.arr[q]]))
                links[key] = ('each', c, m)
                new[key] = c
                continue
            r = ctx.fresh(I, 'added')
            ctx.assume(r >= 0)
            c = CSeq(n=z3.simplify(m + r), arr=ctx.fresh(SeqArr, 'acc'))
            q, s = z3.Ints('q!ac s!ac')
            ctx.assume(z3.ForAll([q], z3.Implies(q < m, c.arr[q] == arr[q]),
                                 patterns=[c.arr[q]]))
            idx, pos = ctx.fresh_fun('idx', I, I), ctx.fresh_fun('pos', I, I)
            ctx.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < r), z3.And(
                0 <= idx(q), idx(q) < hi, pos(idx(q)) == q)), patterns=[idx(q)]))
            ctx.assume(z3.ForAll([q, s], z3.Implies(
                z3.And(0 <= q, q < s, s < r), idx(q) < idx(s)),
                patterns=[z3.MultiPattern(idx(q), idx(s))]))
            ctx.assume(z3.ForAll([q], z3.Implies(
                z3.And(m <= q, q < m + r), idx(q - m) >= 0), patterns=[c.arr[q]]))
            links[key] = ('append', c, m, r, idx, pos)
        elif kind is CSet:
            d = ctx.set_term(old)
            c = CSet(dom=ctx.fresh(DomArr, 'acc'))
            k = z3.Const('k!ac', Val)
            pos = ctx.fresh_fun('pos', Val, I)
            ctx.assume(z3.ForAll([k], z3.Implies(d[k], c.dom[k]), patterns=[d[k]])
                       if not is_lambda(d) and d.decl().kind() != z3.Z3_OP_CONST_ARRAY else
                       z3.ForAll([k], z3.Implies(d[k], c.dom[k]), patterns=[c.dom[k]]))
            ctx.assume(z3.ForAll([k], z3.Implies(z3.And(c.dom[k], z3.Not(d[k])), z3.And(
                0 <= pos(k), pos(k) < hi)), patterns=[c.dom[k]]))
            links[key] = ('add', c, d, pos)
        elif any(d[key][0] == 'del' for d in ops):
            if any(d[key][0] == 'set' for d in ops):
                raise Unsupported("a loop adds to and removes from the same mapping")
            d, m = ctx.map_terms(old)
            c = CMap(dom=ctx.fresh(DomArr, 'rest'), map=m)
            k = z3.Const('k!ac', Val)
            pos = ctx.fresh_fun('pos', Val, I)
            ctx.assume(z3.ForAll([k], z3.Implies(c.dom[k], d[k]), patterns=[c.dom[k]]))
            ctx.assume(z3.ForAll([k], z3.Implies(z3.And(d[k], z3.Not(c.dom[k])), z3.And(
                0 <= pos(k), pos(k) < hi)), patterns=[c.dom[k]]))
            links[key] = ('del', c, d, pos)
        else:
            d, m = ctx.map_terms(old)
            c = CMap(dom=ctx.fresh(DomArr, 'acc'), map=ctx.fresh(MapArr, 'acm'))
            k = z3.Const('k!ac', Val)
            pos = ctx.fresh_fun('pos', Val, I)
            ctx.assume(z3.ForAll([k], z3.Implies(d[k], c.dom[k]), patterns=[c.dom[k]]))
            ctx.assume(z3.ForAll([k], z3.Implies(c.dom[k], z3.Or(
                z3.And(d[k], c.map[k] == m[k], pos(k) == -1),
                z3.And(0 <= pos(k), pos(k) < hi))), patterns=[c.dom[k]]))
            links[key] = ('set', c, d, m, pos)
        new[key] = c
    alts = []
    for p, d in zip(nexts, ops):
        fs = list(p.facts)
        for a, kind in accs:
            key = addr_key(a)
            op, lk = d[key], links[key]
            if lk[0] == 'map':
                fs.append(lk[1].arr[j] == (op[1] if op[0] == 'map' else lk[2][j]))
            elif lk[0] == 'each':
                fs.append(lk[1].arr[lk[2] + j] == op[1][0])
            elif lk[0] == 'append':
                _, c, m, r, idx, pos = lk
                if op[0] == 'keep':
                    fs.append(pos(j) == -1)
                elif len(op[1]) == 1:
                    fs += [0 <= pos(j), pos(j) < r, idx(pos(j)) == j,
                           c.arr[m + pos(j)] == op[1][0]]
                else:
                    raise Unsupported("several appends per iteration")
            elif lk[0] == 'add':
                _, c, dd, pos = lk
                if op[0] == 'add':
                    for x in op[1]:
                        if isinstance(x, Members):
                            q = z3.Const('q!mem', Val)
                            fs.append(z3.ForAll([q], z3.Implies(x.at(q), c.dom[q]),
                                                patterns=[c.dom[q]]))
                        else:
                            fs.append(c.dom[x])
            elif lk[0] == 'del':
                if op[0] == 'del':
                    fs += [z3.Not(lk[1].dom[x]) for x in op[1]]
            else:
                _, c, dd, mm, pos = lk
                if op[0] == 'set':
                    for i, (x, y) in enumerate(op[1]):
                        # what is set later under the same key counts
                        last = z3.And([pos(x) == j] + [x != z for z, _ in op[1][i + 1:]])
                        fs += [c.dom[x], pos(x) >= j, z3.Implies(last, c.map[x] == y)]
        fs = skolemise(ctx, fs, [c for c in p.fresh if not (z3.is_expr(c) and c.eq(j))], j)
        # completeness of sets and maps: an element recorded at position j is one added by j
        alts.append((z3.And(fs) if fs else z3.BoolVal(True)))
    body = z3.Or(alts) if alts else z3.BoolVal(False)
    add_forall(ctx, j, z3.IntVal(0), hi, z3.Implies(range_fact(j, 0, hi), body), el)
    # the converse: every new member comes from the iteration at its position
    for a, kind in accs:
        key = addr_key(a)
        lk = links[key]
        if lk[0] in ('add', 'set', 'del'):
            k = z3.Const('k!ac', Val)
            c, dd, pos = lk[1], lk[2], lk[-1]
            alts = []
            for p, d in zip(nexts, ops):
                op = d[key]
                if op[0] == 'keep':
                    continue
                hits = []
                for item in op[1]:
                    x = item[0] if op[0] == 'set' else item
                    hits.append(x.at(k) if isinstance(x, Members) else x == k)
                fs = skolemise(ctx, list(p.facts) + [z3.Or(hits)],
                               [q for q in p.fresh if not (z3.is_expr(q) and q.eq(j))], j)
                alts.append(z3.And(fs))
            f = z3.Or(alts) if alts else z3.BoolVal(False)
            f = z3.substitute(f, (j, pos(k)))
            new_member = z3.And(c.dom[k], z3.Not(dd[k])) if lk[0] == 'add' else \
                z3.And(dd[k], z3.Not(c.dom[k])) if lk[0] == 'del' else \
                z3.And(c.dom[k], pos(k) >= 0)
            ctx.assume(z3.ForAll([k], z3.Implies(new_member, f), patterns=[c.dom[k]]))
            note_origin(ctx, pos, k, z3.And(z3.Implies(new_member, f), *([] if lk[0] != 'set' else [
                z3.Implies(c.dom[k], z3.Or(
                    z3.And(dd[k], c.map[k] == lk[3][k], pos(k) == -1),
                    z3.And(0 <= pos(k), pos(k) < hi)))]), z3.Implies(
                        new_member, z3.And(0 <= pos(k), pos(k) < hi))))
    for a, kind in accs:
        ctx.contents.append((a, new[addr_key(a)]))
        ctx.events.append(('content', a, new[addr_key(a)]))
    if mods.logs:
        ctx.events.append(('log-maybe', None))
    for k, (e, name) in mods.vars.items():
        e.vars[name] = Poison("assigned in a loop")
    if leaving:
        from .interp import BreakEx
        if not ctx.feasible():
            raise PathAbort()
        try:
            run_body(interp, stmt, el(hi), env)
        except BreakEx:
            return
        raise PathAbort()
    for t in target_names:
        env.vars[t] = Poison("loop variable")
    interp.exec_block(stmt.orelse, env)


def num_real(t):
    return z3.If(Val.is_int(t), z3.ToReal(Val.i(t)), Val.r(t))


def finish_extrema(interp, stmt, seq, env, nexts, exits, names, var_updates, hav, mods, j,
                   target_names, finite):
    """Running minimum / maximum: x := v_j when v_j < x (resp. >), v_j independent of the state.

    The candidate invariant is proved inductively on every path before it is used:
    x <= x0, x <= v_j for all j < i, and x is x0 or one of the v_j.
    """
    ctx = interp.ctx
    _, n, el, src = seq
    cands = {}
    for k, ups in var_updates.items():
        cands[k] = []
        for p, v in zip(nexts, ups):
            if isinstance(v, SV) and v.t.eq(hav[k]):
                continue
            t = ctx.lift(v)
            if _depends_any(t, list(hav[q] for q in names)):
                raise Unsupported("accumulator update depends on accumulated state")
            if not any(t.eq(c) for c in cands[k]):
                cands[k].append(t)
        if not 1 <= len(cands[k]) <= 8:
            raise Unsupported("unrecognised accumulator")

    def holds(p, f):
        s = z3.Solver()
        s.set('timeout', 4000)
        s.add([g for g in list(ctx.facts) + list(p.facts) if not has_quant(g)])
        s.add(z3.Not(f))
        return s.check() == z3.unsat
    # decide the direction of each accumulator from the paths, and which of the candidate values
    # bound it on each path (checked by the solver)
    direction, vals, taken = {}, {}, {}
    for k in names:
        x = num_real(hav[k])
        for d in ('min', 'max'):
            def better(a, b):
                return a <= b if d == 'min' else a >= b
            ok = []
            for p, v in zip(nexts, var_updates[k]):
                new = num_real(ctx.lift(v))
                if k not in finite or not holds(p, finite[k](ctx.lift(v))):
                    raise Unsupported("accumulated number of a varying class")
                if not holds(p, better(new, x)):
                    break
                ok.append([c for c in cands[k] if ctx.lift(v).eq(c)
                           or holds(p, better(new, num_real(c)))])
            else:
                if not all(ok):
                    continue
                direction[k] = d
                for p, v, cs in zip(nexts, var_updates[k], ok):
                    vals[k, id(p)] = cs
                    t = ctx.lift(v)
                    taken[k, id(p)] = [] if t.eq(hav[k]) else [t]
                break
        else:
            raise Unsupported("unrecognised accumulator (neither minimum nor maximum)")
    if exits and ctx.choose(2) == 1:
        hi, leaving = ctx.fresh(I, 'exit'), True
        ctx.assume(range_fact(hi, 0, n))
    else:
        hi, leaving = n, False
    final = {}
    for k, (e, name, old) in names.items():
        t = ctx.fresh(Val, name)
        ctx.touch(t)
        ctx.narrow(t, ctx.candidates(old))
        ctx.assume(finite[k](t))
        final[k] = t
    alts = []
    wit = {k: ctx.fresh(I, 'witness') for k in names}
    parts = {k: [] for k in names}
    for p in nexts:
        # facts of the path that do not speak about the accumulators
        fs = [f for f in p.facts if not _depends_any(f, [hav[q] for q in names])]
        for k in names:
            for c in vals[k, id(p)]:
                x, c = num_real(final[k]), num_real(c)
                fs.append(x <= c if direction[k] == 'min' else x >= c)
        alts.append(z3.And(skolemise_shared(ctx, fs, p, j)))
    body = z3.Or(alts) if alts else z3.BoolVal(False)
    add_forall(ctx, j, z3.IntVal(0), hi, z3.Implies(range_fact(j, 0, hi), body), el)
    for k, (e, name, old) in names.items():
        x, x0 = num_real(final[k]), num_real(ctx.lift(old))
        ctx.assume(x <= x0 if direction[k] == 'min' else x >= x0)
        hits = []
        for p in nexts:
            fs = [f for f in p.facts if not _depends_any(f, [hav[q] for q in names])]
            fs.append(z3.Or([final[k] == c for c in taken[k, id(p)]]))
            if not taken[k, id(p)]:
                continue
            hits.append(z3.And(skolemise_shared(ctx, fs, p, j)))
        at = z3.substitute(z3.Or(hits) if hits else z3.BoolVal(False), (j, wit[k]))
        ctx.assume(z3.Or(final[k] == ctx.lift(old), z3.And(range_fact(wit[k], 0, hi), at)))
        e.vars[name] = SV(final[k])
    if mods.logs:
        ctx.events.append(('log-maybe', None))
    keep = {(id(e), name) for (e, name, _) in names.values()}
    for k, (e, name) in mods.vars.items():
        if k not in keep:
            e.vars[name] = Poison("assigned in a loop")
    if leaving:
        from .interp import BreakEx
        if not ctx.feasible():
            raise PathAbort()
        try:
            run_body(interp, stmt, el(hi), env)
        except BreakEx:
            return
        raise PathAbort()
    for t in target_names:
        env.vars[t] = Poison("loop variable")
    interp.exec_block(stmt.orelse, env)


def skolemise_shared(ctx, fs, p, j):
    """Skolemise with the same functions for the same path (so that facts stay linked)."""
    if not hasattr(p, 'sk'):
        consts, funs = [], []
        for c in p.fresh:
            if z3.is_expr(c) and c.eq(j):
                continue
            if isinstance(c, z3.FuncDeclRef) and c.arity() > 0:
                sorts = [c.domain(i) for i in range(c.arity())]
                g = ctx.fresh_fun(c.name() + '@', I, *sorts, c.range())
                funs.append((c, g(j, *[z3.Var(i, s) for i, s in enumerate(sorts)])))
            else:
                g = ctx.fresh_fun(str(c) + '@', I, c.sort())
                consts.append((c, g(j)))
        p.sk = (consts, funs)
    consts, funs = p.sk
    out = []
    for f in fs:
        if consts:
            f = z3.substitute(f, *consts)
        if funs:
            f = z3.substitute_funs(f, *funs)
        out.append(f)
    return out


# ---------------------------------------------------------------- while
def while_loop(interp, stmt, env):
    ctx = interp.ctx
    for rule in getattr(ctx, 'while_rules', []):
        if rule.match_while(interp, stmt, env):
            return rule.run_while(interp, stmt, env)
    from .interp import BreakEx, ContinueEx
    for _ in range(400):
        t = interp.truth(interp.eval(stmt.test, env))
        if t is not True and t is not False:
            f = z3.simplify(Val.b(t.t))
            if z3.is_true(f):
                t = True
            elif z3.is_false(f):
                t = False
            elif ctx.must(Val.b(t.t)):
                t = True
            elif ctx.must(z3.Not(Val.b(t.t))):
                t = False
            else:
                raise Unsupported("while loop without an invariant")
        if not t:
            interp.exec_block(stmt.orelse, env)
            return
        try:
            interp.exec_block(stmt.body, env)
        except BreakEx:
            return
        except ContinueEx:
            continue
    raise Unsupported("while loop does not unroll")


# ---------------------------------------------------------------- comprehensions
class LastLevel:
    """The innermost generator of a comprehension, on its own."""

    def __init__(self, node, g):
        self.generators = [g]
        self.elt = getattr(node, 'elt', None)
        self.key, self.value = getattr(node, 'key', None), getattr(node, 'value', None)


def comp_run(interp, node, env, first, emit, last=None):
    """Run a comprehension over known spines, calling emit(env) for each kept binding; the innermost
    generator may be unbounded where `last` handles it."""
    from .interp import Env

    def level(i, cenv):
        if i == len(node.generators):
            emit(cenv)
            return
        g = node.generators[i]
        it = first if i == 0 else interp.eval(g.iter, cenv)
        seq = interp.iterate(it)
        if seq[0] != 'spine':
            if last is not None and i > 0 and i == len(node.generators) - 1:
                last(LastLevel(node, g), cenv, it, seq)
                return
            raise Unsupported("nested unbounded comprehension")
        for x in seq[1]:
            interp.assign(g.target, x, cenv)
            if all(interp.truth_decide(interp.eval(c, cenv)) for c in g.ifs):
                level(i + 1, cenv)
    level(0, Env(interp.ctx, parent=env))


def generic(interp, node, env, seq, produce):
    """Explore one generic iteration of a single-generator comprehension.

    Path outcomes: ('next', terms) for a kept element, ('drop',) and ('raise', exc)."""
    from .interp import Env
    ctx = interp.ctx
    _, n, el, src = seq
    g = node.generators[0]
    j = ctx.fresh(I, 'j')

    def at(i):
        cenv = Env(ctx, parent=env)
        interp.assign(g.target, el(i), cenv)
        for c in g.ifs:
            if not interp.truth_decide(interp.eval(c, cenv)):
                return ('drop',)
        return ('next', produce(cenv))

    before = ctx.snapshot()
    addr_lo = ctx.next_addr

    def thunk():
        ctx.assume(range_fact(j, 0, n))
        try:
            return at(j)
        except PyRaise as e:
            return ('raise', e.exc)
    paths = explore(ctx, thunk)
    for p in paths:
        m = diff(ctx, before, p, addr_lo, None)
        if not m.empty():
            raise Unsupported("comprehension with effects")
        if p.outcome[0] == 'next':
            for t in p.outcome[1]:
                if mentions_new(t, addr_lo):
                    raise Escape("an object created in a comprehension escapes")
    return j, at, paths


def search_raise(interp, n, el, j, at, paths):
    """Fork: some iteration raises (the first one), or none does."""
    ctx = interp.ctx
    raising = [p for p in paths if p.outcome[0] == 'raise']
    ok = [p for p in paths if p.outcome[0] != 'raise']
    if raising and ctx.choose(2) == 1:
        i = ctx.fresh(I, 'raises')
        ctx.assume(range_fact(i, 0, n))
        if ok:
            add_forall(ctx, j, 0, i, forall_next(ctx, j, z3.IntVal(0), i, ok), el)
        else:
            ctx.assume(i == 0)
        if not ctx.feasible():
            raise PathAbort()
        at(i)
        raise PathAbort()
    return ok


def comp_list(interp, node, env, first):
    ctx = interp.ctx
    seq = interp.iterate(first)
    if seq[0] == 'spine':
        parts = []
        comp_run(interp, node, env, SIterDone(seq[1]),
                 lambda e: parts.append(CSeq(spine=(interp.eval(node.elt, e),))),
                 lambda sub, e, it, s: parts.append(comp_seq(interp, sub, e, s)))
        c = CSeq(spine=())
        for p in parts:
            c = interp.seq_concat(c, p)
        r = ctx.new_list(())
        ctx.set_content(r, c)
        return r
    r = ctx.alloc(list)
    ctx.set_content(r, comp_seq(interp, node, env, seq))
    return r


def SIterDone(items):
    return STuple(items)


def comp_seq(interp, node, env, seq):
    ctx = interp.ctx
    if len(node.generators) != 1:
        raise Unsupported("nested unbounded comprehension")
    _, n, el, src = seq
    j, at, paths = generic(interp, node, env, seq,
                           lambda e: [ctx.lift(interp.eval(node.elt, e))])
    if not ctx.branch(n > 0):
        return CSeq(spine=())
    ok = search_raise(interp, n, el, j, at, paths)
    kept = [p for p in ok if p.outcome[0] == 'next']
    dropped = [p for p in ok if p.outcome[0] == 'drop']
    arr = ctx.fresh(SeqArr, 'comp')
    if not dropped:
        add_forall(ctx, j, 0, n, forall_next(
            ctx, j, z3.IntVal(0), n, kept, extra=lambda p: [arr[j] == p.outcome[1][0]]), el)
        ctx.element_lemmas_for[arr.get_id()] = len(ctx.element_lemmas) - 1
        return CSeq(n=n, arr=arr)
    m = ctx.fresh(I, 'kept')
    ctx.assume(z3.And(0 <= m, m <= n))
    idx, pos = ctx.fresh_fun('idx', I, I), ctx.fresh_fun('pos', I, I)
    q, s = z3.Ints('q!cp s!cp')
    ctx.assume(z3.ForAll([q], z3.Implies(range_fact(q, 0, m), z3.And(
        0 <= idx(q), idx(q) < n, pos(idx(q)) == q)), patterns=[idx(q)]))
    ctx.assume(z3.ForAll([q], z3.Implies(range_fact(q, 0, m), z3.And(
        0 <= idx(q), idx(q) < n, pos(idx(q)) == q)), patterns=[arr[q]]))
    ctx.assume(z3.ForAll([q, s], z3.Implies(z3.And(0 <= q, q < s, s < m), idx(q) < idx(s)),
                         patterns=[z3.MultiPattern(idx(q), idx(s))]))

    def extra(p):
        if p.outcome[0] == 'next':
            return [0 <= pos(j), pos(j) < m, idx(pos(j)) == j, arr[pos(j)] == p.outcome[1][0]]
        return [pos(j) == -1]
    f = forall_next(ctx, j, z3.IntVal(0), n, ok, extra=extra)
    add_forall(ctx, j, 0, n, f, el)
    ctx.assume(z3.ForAll([j], f, patterns=[pos(j)]))
    ctx.comp_index[arr.get_id()] = (idx, pos, m, arr)
    return CSeq(n=m, arr=arr)


def comp_set(interp, node, env, first):
    ctx = interp.ctx
    seq = interp.iterate(first)
    if seq[0] == 'spine':
        out, more = [], []
        comp_run(interp, node, env, STuple(seq[1]),
                 lambda e: out.append(interp.eval(node.elt, e)),
                 lambda sub, e, it, s: more.append(comp_set(interp, sub, e, it)))
        r = interp.make_set(out)
        for m in more:
            interp.m_set_update(r, m)
        return r
    if len(node.generators) != 1:
        raise Unsupported("nested unbounded comprehension")
    _, n, el, src = seq
    j, at, paths = generic(interp, node, env, seq,
                           lambda e: [interp.keyterm(interp.eval(node.elt, e))])
    if not ctx.branch(n > 0):
        return interp.make_set([])
    ok = search_raise(interp, n, el, j, at, paths)
    dom = ctx.fresh(DomArr, 'cset')
    pos = ctx.fresh_fun('pos', Val, I)
    add_forall(ctx, j, 0, n, forall_next(
        ctx, j, z3.IntVal(0), n, ok,
        extra=lambda p: [dom[p.outcome[1][0]]] if p.outcome[0] == 'next' else []), el)
    k = z3.Const('k!cs', Val)
    kept = [p for p in ok if p.outcome[0] == 'next']
    alts = [z3.And(skolemise(ctx, list(p.facts) + [p.outcome[1][0] == k],
                             [c for c in p.fresh if not (z3.is_expr(c) and c.eq(j))], j))
            for p in kept]
    f = z3.substitute(z3.Or(alts) if alts else z3.BoolVal(False), (j, pos(k)))
    ctx.assume(z3.ForAll([k], z3.Implies(dom[k], z3.And(range_fact(pos(k), 0, n), f)),
                         patterns=[dom[k]]))
    r = ctx.alloc(set)
    ctx.set_content(r, CSet(dom=dom))
    return r


def comp_dict(interp, node, env, first):
    ctx = interp.ctx
    seq = interp.iterate(first)
    if seq[0] == 'spine':
        d = ctx.new_dict()
        comp_run(interp, node, env, STuple(seq[1]), lambda e: interp.setitem(
            d, interp.eval(node.key, e), interp.eval(node.value, e)))
        return d
    if len(node.generators) != 1:
        raise Unsupported("nested unbounded comprehension")
    _, n, el, src = seq

    def produce(e):
        k = interp.keyterm(interp.eval(node.key, e))
        return [k, ctx.lift(interp.eval(node.value, e))]
    j, at, paths = generic(interp, node, env, seq, produce)
    if not ctx.branch(n > 0):
        return ctx.new_dict()
    ok = search_raise(interp, n, el, j, at, paths)
    kept = [p for p in ok if p.outcome[0] == 'next']
    dom, mp = ctx.fresh(DomArr, 'cdom'), ctx.fresh(MapArr, 'cmap')
    pos = ctx.fresh_fun('pos', Val, I)

    def extra(p):
        if p.outcome[0] != 'next':
            return []
        k, v = p.outcome[1]
        return [dom[k], pos(k) >= j, pos(k) < n, z3.Implies(pos(k) == j, mp[k] == v)]
    add_forall(ctx, j, 0, n, forall_next(ctx, j, z3.IntVal(0), n, ok, extra=extra), el)
    k = z3.Const('k!cd', Val)
    alts = [z3.And(skolemise(ctx, list(p.facts) + [p.outcome[1][0] == k,
                                                   mp[k] == p.outcome[1][1]],
                             [c for c in p.fresh if not (z3.is_expr(c) and c.eq(j))], j))
            for p in kept]
    f = z3.substitute(z3.Or(alts) if alts else z3.BoolVal(False), (j, pos(k)))
    ctx.assume(z3.ForAll([k], z3.Implies(dom[k], z3.And(range_fact(pos(k), 0, n), f)),
                         patterns=[dom[k]]))
    r = ctx.alloc(dict)
    ctx.set_content(r, CMap(dom=dom, map=mp))
    return r


def gen_iterate(interp, g):
    node, env = g.node, g.env
    seq = interp.iterate(g.first)
    if seq[0] == 'spine':
        out = []
        comp_run(interp, node, env, STuple(seq[1]), lambda e: out.append(
            interp.eval(node.elt, e)))
        return 'spine', out
    c = comp_seq(interp, node, env, seq)
    if c.spine is not None:
        return 'spine', list(c.spine)
    return 'abs', c.n, (lambda j: interp.elem(c.arr, j)), g


# ---------------------------------------------------------------- searches
def lazy_items(interp, it):
    """For a generator over a spine: evaluate element by element (short-circuit semantics)."""
    node, env = it.node, it.env
    if len(node.generators) != 1:
        return None
    seq = interp.iterate(it.first)
    return seq


def any_all(interp, it, is_any):
    from .interp import Env
    ctx = interp.ctx
    if isinstance(it, SGen) and len(it.node.generators) == 1:
        seq = interp.iterate(it.first)
        g = it.node.generators[0]

        def at(i_value):
            cenv = Env(ctx, parent=it.env)
            interp.assign(g.target, i_value, cenv)
            for c in g.ifs:
                if not interp.truth_decide(interp.eval(c, cenv)):
                    return None
            return interp.truth_decide(interp.eval(it.node.elt, cenv))
    else:
        seq = interp.iterate(it)

        def at(v):
            return interp.truth_decide(v)
    if seq[0] == 'spine':
        for x in seq[1]:
            r = at(x)
            if r is None:
                continue
            if r == is_any:
                return is_any
        return not is_any
    _, n, el, src = seq
    if not ctx.branch(n > 0):
        return not is_any
    j = ctx.fresh(I, 'j')
    before = ctx.snapshot()
    addr_lo = ctx.next_addr

    def thunk():
        ctx.assume(range_fact(j, 0, n))
        try:
            r = at(el(j))
        except PyRaise as e:
            return ('raise', e.exc)
        return ('next',) if r is None or r != is_any else ('stop',)
    paths = explore(ctx, thunk)
    for p in paths:
        if not diff(ctx, before, p, addr_lo, None).empty():
            raise Unsupported("generator with effects")

    def at_exit(i):
        r = at(el(i))
        if r is None or r != is_any:
            raise PathAbort()
        return is_any
    return loop_search(interp, n, el, None, at_exit, paths, j, lambda: not is_any)


def next_(interp, it, default):
    from .interp import Env
    ctx = interp.ctx
    if not isinstance(it, SGen) or len(it.node.generators) != 1:
        if isinstance(it, SIter):
            seq = interp.iterate(it)
            if seq[0] == 'spine':
                if seq[1]:
                    return seq[1][0]
            elif ctx.branch(seq[1] > 0):
                return seq[2](z3.IntVal(0))
            if default is MISSING:
                interp.raise_(StopIteration)
            return default
        raise Unsupported("next() of a symbolic iterator")
    seq = interp.iterate(it.first)
    g = it.node.generators[0]

    def at(v):
        cenv = Env(ctx, parent=it.env)
        interp.assign(g.target, v, cenv)
        for c in g.ifs:
            if not interp.truth_decide(interp.eval(c, cenv)):
                return MISSING
        return interp.eval(it.node.elt, cenv)
    if seq[0] == 'spine':
        for x in seq[1]:
            r = at(x)
            if r is not MISSING:
                return r
        if default is MISSING:
            interp.raise_(StopIteration)
        return default
    _, n, el, src = seq

    def none():
        if default is MISSING:
            interp.raise_(StopIteration)
        return default
    if not ctx.branch(n > 0):
        return none()
    j = ctx.fresh(I, 'j')
    before = ctx.snapshot()
    addr_lo = ctx.next_addr

    def thunk():
        ctx.assume(range_fact(j, 0, n))
        try:
            r = at(el(j))
        except PyRaise as e:
            return ('raise', e.exc)
        return ('next',) if r is MISSING else ('stop',)
    paths = explore(ctx, thunk)
    for p in paths:
        if not diff(ctx, before, p, addr_lo, None).empty():
            raise Unsupported("generator with effects")

    def at_exit(i):
        r = at(el(i))
        if r is MISSING:
            raise PathAbort()
        return r
    return loop_search(interp, n, el, None, at_exit, paths, j, none)


def _eq_paths(interp, n, el, x):
    ctx = interp.ctx
    j = ctx.fresh(I, 'j')
    before = ctx.snapshot()
    addr_lo = ctx.next_addr

    def thunk():
        ctx.assume(range_fact(j, 0, n))
        try:
            r = interp.truth_decide(interp.eq_elem(el(j), x))
        except PyRaise as e:
            return ('raise', e.exc)
        return ('stop',) if r else ('next',)
    paths = explore(ctx, thunk)
    for p in paths:
        if not diff(ctx, before, p, addr_lo, None).empty():
            raise Unsupported("comparison with effects")
    return j, paths


def first_eq(interp, n, el, x):
    ctx = interp.ctx
    if not ctx.branch(n > 0):
        return None
    j, paths = _eq_paths(interp, n, el, x)

    def at_exit(i):
        if not interp.truth_decide(interp.eq_elem(el(i), x)):
            raise PathAbort()
        return i
    return loop_search(interp, n, el, None, at_exit, paths, j, lambda: None)


def exists_eq(interp, n, el, x):
    return first_eq(interp, n, el, x) is not None


def extremum(interp, seq, op, kw):
    ctx = interp.ctx
    _, n, el, src = seq
    if not ctx.branch(n > 0):
        if 'default' in kw:
            return kw['default']
        interp.raise_(ValueError)
    i = ctx.fresh(I, 'best')
    ctx.assume(range_fact(i, 0, n))
    best = el(i)
    j = ctx.fresh(I, 'j')

    def thunk():
        ctx.assume(range_fact(j, 0, n))
        try:
            r = interp.truth_decide(interp.order(op, el(j), best))
        except PyRaise as e:
            return ('raise', e.exc)
        return ('better',) if r else ('next',)
    paths = explore(ctx, thunk)
    nexts = [p for p in paths if p.outcome[0] == 'next']
    if any(p.outcome[0] == 'raise' for p in paths) and ctx.choose(2) == 1:
        interp.raise_(TypeError, "unorderable")
    add_forall(ctx, j, 0, n, forall_next(ctx, j, z3.IntVal(0), n, nexts), el)
    return best


def sum_(interp, seq, start):
    ctx = interp.ctx
    h = getattr(ctx, 'sum_hook', None)
    if h is not None:
        return h(interp, seq, start)
    raise Unsupported("sum of an unbounded sequence")

"""Symbolic state, path exploration, heap and proof obligations."""
import inspect
import time
import types

import z3

from .values import *  # noqa: F401,F403
from .values import CONSTS, UNIVERSE, _V  # noqa: F401


class Unsupported(Exception):
    """The engine cannot interpret this construct; the unit falls back to its stand-in."""


class PathAbort(Exception):
    """The current path is infeasible by construction; drop it."""


class PyRaise(Exception):
    """A Python exception raised by interpreted code."""

    def __init__(self, exc):
        self.exc = exc
        super().__init__(repr(exc))


MISSING = object()
ALL = None  # filled lazily


class Frame:
    """One level of decision making (the unit itself, or a loop body)."""

    def __init__(self, prefix):
        self.prefix = list(prefix)
        self.pos = 0
        self.alternatives = []


class Obligation:
    def __init__(self, name, status, detail="", seconds=0.0, backend="z3"):
        self.name, self.status, self.detail = name, status, detail
        self.seconds, self.backend = seconds, backend


_quant_cache = {}


def has_quant(t):
    tid = t.get_id()
    hit = _quant_cache.get(tid)
    if hit is not None:
        return hit[0]
    if z3.is_quantifier(t):
        res = True
    else:
        res = any(has_quant(c) for c in t.children())
    _quant_cache[tid] = (res, t)
    return res


def ground_refutes(facts, goal, rounds=2, limit=60, timeout=6000):
    """Whether instances of the quantified facts at terms of the goal already imply the goal."""
    ground = [f for f in facts if not has_quant(f)]
    quants = []
    for f in facts:
        for g in (f.children() if z3.is_and(f) else [f]):
            if z3.is_quantifier(g) and g.is_forall() and g.num_vars() == 1:
                quants.append((g.var_sort(0), g.body()))
    terms, seen, done = {}, set(), set()

    def collect(e):
        todo = [e]
        while todo:
            x = todo.pop()
            if x.get_id() in seen or z3.is_quantifier(x):
                continue
            seen.add(x.get_id())
            if z3.is_app(x):
                if x.sort() in (Val, I) and not z3.is_int_value(x) and \
                        (x.num_args() == 0 or x.decl().kind() == z3.Z3_OP_UNINTERPRETED):
                    ts = terms.setdefault(x.sort().name(), [])
                    if len(ts) < limit:
                        ts.append(x)
                todo.extend(x.children())
    collect(goal)
    for _ in range(rounds):
        new = []
        for i, (sort, body) in enumerate(quants):
            for t in terms.get(sort.name(), []):
                if (i, t.get_id()) not in done:
                    done.add((i, t.get_id()))
                    new.append(z3.simplify(z3.substitute_vars(body, t)))
        ground += [f for f in new if not has_quant(f)]
        for f in new:
            collect(f)
    s = z3.Solver()
    s.set('timeout', timeout)
    s.add(ground)
    s.add(z3.Not(goal))
    return s.check() == z3.unsat


class Ctx:
    """Symbolic execution context for one proof unit."""

    feas_timeout = 400
    prove_timeout = 12000
    max_paths = 3000

    def __init__(self, shapes=None, unit_name=""):
        self.unit = unit_name
        self.shapes = shapes
        self.obligations = []
        self.covered = {}
        self.stats = dict(paths=0, branches=0, feas=0, solver_s=0.0, interpreted=set(),
                          contracts_used=set(), natives=set(), assumed=set())
        self.expect_cover = set()
        self.func_contracts = {}
        self.recursion = None
        self.fail_fast = False

    # ------------------------------------------------------------ exploration
    def run(self, body):
        """Explore every path of `body(ctx)`."""
        self.deadline = getattr(self, 'deadline', None)
        work = [[]]
        n = 0
        while work:
            n += 1
            if n > self.max_paths:
                raise Unsupported("too many paths")
            if self.deadline and time.time() > self.deadline:
                raise Unsupported("time budget for exploration exhausted")
            prefix = work.pop()
            self.reset(prefix)
            try:
                body(self)
                if self.qf.check() == z3.unsat:
                    self.stats['void'] = self.stats.get('void', 0) + 1
            except PathAbort:
                pass
            except (PyRaise, Unsupported):
                if not self.absurd():
                    raise
            self.stats['paths'] += 1
            work.extend(self.frames[0].alternatives)
        return self.obligations

    def reset(self, prefix):
        self.frames = [Frame(prefix)]
        self.facts = []
        self.qf = z3.Solver()
        self.qf.set('timeout', self.feas_timeout)
        self.typefacts = {}
        self.memo = {}
        self.fields = {}
        self.contents = []
        self.fresh_cls = {}
        self.next_addr = -1
        self.counter = 0
        self.fresh_consts = []
        self.envs = []
        self.globals_ = {}
        self.events = []
        self.list_shapes = {}
        self.field_removed = {}
        self.base_content_writes = None
        self.exploring_body = 0
        self.element_lemmas = []
        self.element_lemmas_for = {}
        self.witnesses = []
        self.comp_index = {}
        self.loop_rules = []
        self.recursion = None
        self.text_hook = None
        self.while_rules = []
        self.ground_maps = False  # only ground instances of what is known of mappings
        self.map_hooks = []
        self.map_keys = []

    def inst_map(self, dom, key):
        """Instantiate what is known of the entries of a mapping at one key."""
        while dom is not None:
            for h in list(self.map_hooks):
                if h[0].eq(dom):
                    self.inst_hook(h, key)
            dom = dom.arg(0) if z3.is_store(dom) else None

    def inst_hook(self, h, key):
        base, fn = h
        mk = ('maphook', base.get_id(), id(fn), key.get_id())
        if mk not in self.memo:
            self.memo[mk] = (base, fn, key)
            if not any(k.eq(key) for k in self.map_keys):
                self.map_keys.append(key)
            r = fn(key)
            for f in r if isinstance(r, (list, tuple)) else [r]:
                self.assume(f)

    def inst_all(self, *keys):
        """Instantiate everything known of mapping entries at the given keys."""
        for k in keys:
            for h in list(self.map_hooks):
                self.inst_hook(h, k)

    def sharpen(self, r):
        """Note that a value is a string where the facts say so."""
        if isinstance(r, SV) and self.map_hooks and self.ctor(r.t) is None \
                and r.t.get_id() not in self.typefacts and self.must(Val.is_str(r.t)):
            self.narrow(r.t, [str])
        return r

    def absurd(self, timeout=4000):
        """Whether all the facts together are contradictory (the path cannot happen)."""
        return any(has_quant(f) for f in self.facts) and \
            self.check_valid(z3.BoolVal(False), timeout)[0] == 'discharged'

    def snapshot(self):
        return dict(facts=list(self.facts), typefacts=dict(self.typefacts), memo=dict(self.memo),
                    fields={k: list(v) for k, v in self.fields.items()},
                    contents=list(self.contents), fresh_cls=dict(self.fresh_cls),
                    envs=[(e, dict(e.vars)) for e in self.envs],
                    globals_=dict(self.globals_), events=list(self.events),
                    list_shapes=dict(self.list_shapes), fresh_consts=list(self.fresh_consts),
                    element_lemmas=list(self.element_lemmas),
                    witnesses=list(self.witnesses), map_hooks=list(self.map_hooks),
                    map_keys=list(self.map_keys))

    def restore(self, s):
        self.facts = list(s['facts'])
        self.typefacts = dict(s['typefacts'])
        self.memo = dict(s['memo'])
        self.fields = {k: list(v) for k, v in s['fields'].items()}
        self.contents = list(s['contents'])
        self.fresh_cls = dict(s['fresh_cls'])
        self.envs = []
        for e, v in s['envs']:
            e.vars.clear()
            e.vars.update(v)
            self.envs.append(e)
        self.globals_ = dict(s['globals_'])
        self.events = list(s['events'])
        self.list_shapes = dict(s['list_shapes'])
        self.fresh_consts = list(s['fresh_consts'])
        self.element_lemmas = list(s['element_lemmas'])
        self.witnesses = list(s['witnesses'])
        self.map_hooks = list(s['map_hooks'])
        self.map_keys = list(s['map_keys'])

    def explore_local(self, thunk, limit=400):
        """Explore all paths of thunk from the current state; the state is restored afterwards.

        Returns a list of (facts_added, fresh_consts_added, outcome, snapshot_after).
        """
        saved = self.snapshot()
        nf, nc = len(self.facts), len(self.fresh_consts)
        work = [[]]
        results = []
        self.exploring_body += 1
        try:
            while work:
                if len(results) > limit:
                    raise Unsupported("too many paths in a loop body")
                prefix = work.pop()
                self.restore(saved)
                frame = Frame(prefix)
                self.frames.append(frame)
                self.qf.push()
                try:
                    out = thunk()
                    results.append((self.facts[nf:], self.fresh_consts[nc:], out,
                                    self.snapshot()))
                except PathAbort:
                    pass
                finally:
                    self.qf.pop()
                    self.frames.pop()
                work.extend(frame.alternatives)
        finally:
            self.exploring_body -= 1
            self.restore(saved)
        return results

    # ------------------------------------------------------------ facts and decisions
    def assume(self, f):
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        self.facts.append(f)
        if not has_quant(f):
            self.qf.add(f)

    def feasible(self, cond=None):
        t0 = time.time()
        self.stats['feas'] += 1
        r = self.qf.check(cond) if cond is not None else self.qf.check()
        self.stats['solver_s'] += time.time() - t0
        return r != z3.unsat

    def must(self, cond):
        """Whether the (quantifier-free) facts entail cond."""
        return not self.feasible(z3.Not(cond))

    def choose(self, n=2):
        """A decision without a condition: explore every alternative."""
        frame = self.frames[-1]
        if frame.pos < len(frame.prefix):
            d = frame.prefix[frame.pos]
        else:
            d = 0
            for alt in range(1, n):
                frame.alternatives.append(frame.prefix + [alt])
            frame.prefix.append(0)
        frame.pos += 1
        return d

    def branch(self, cond):
        """Decide a condition (python bool or z3 Bool) on this path."""
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        self.stats['branches'] += 1
        frame = self.frames[-1]
        if frame.pos < len(frame.prefix):
            d = frame.prefix[frame.pos]
        else:
            can_t = self.feasible(cond)
            can_f = self.feasible(z3.Not(cond)) if can_t else True
            if can_t and can_f:
                frame.alternatives.append(frame.prefix + [0])
                d = 1
            else:
                d = 1 if can_t else 0
                if not can_t and not self.feasible():
                    raise PathAbort()
            frame.prefix.append(d)
        frame.pos += 1
        self.assume(cond if d else z3.Not(cond))
        return bool(d)

    # ------------------------------------------------------------ fresh symbols
    def name(self, hint):
        self.counter += 1
        return f"{hint}!{self.counter}"

    def fresh(self, sort, hint='x'):
        c = z3.Const(self.name(hint), sort)
        self.fresh_consts.append(c)
        return c

    def fresh_fun(self, hint, *sorts):
        f = z3.Function(self.name(hint), *sorts)
        self.fresh_consts.append(f)
        return f

    # ------------------------------------------------------------ values and terms
    def lift(self, v):
        """The Val term of any engine value."""
        if isinstance(v, SV):
            return v.t
        if v is None:
            return Val.none
        if v is True or v is False:
            return Val.bool(z3.BoolVal(v))
        t = type(v)
        if t is int:
            return Val.int(z3.IntVal(v))
        if t is float:
            if v != v:
                return Val.nan
            if v in (float('inf'), float('-inf')):
                return Val.inf(z3.BoolVal(v > 0))
            return Val.flt(real_of(v))
        if t is str:
            return Val.str(self.strlit(v))
        if isinstance(v, STuple):
            r = Val.tnil
            for x in reversed(v.items):
                r = Val.tcons(self.lift(x), r)
            return r
        if t is tuple:
            return self.lift(STuple(v))
        if isinstance(v, LazyType):
            return self.lift(self.resolve_class(v.v))
        if isinstance(v, Poison):
            raise Unsupported(f"use of a variable whose value is not tracked ({v.why})")
        k = CONSTS.const(v)
        term = Val.const(z3.IntVal(k))
        key = ('const', k)
        if key not in self.memo:
            self.memo[key] = term
            self.assume(clsof(term) == UNIVERSE.cid(type(v)))
        return term

    def strlit(self, s):
        c = CONSTS.string(s)
        key = ('lit', s)
        if key not in self.memo:
            self.memo[key] = c
            self.assume(strcode(c) == CONSTS.str_lits.index(s))
        return c

    def unlift(self, t):
        """A value for a Val term, concrete where the term is."""
        t = z3.simplify(t)
        d = t.decl()
        nm = d.name()
        if nm == 'none' and t.num_args() == 0 and t.sort() == Val:
            return None
        if nm == 'bool':
            a = t.arg(0)
            if z3.is_true(a):
                return True
            if z3.is_false(a):
                return False
        elif nm == 'int':
            if z3.is_int_value(t.arg(0)):
                return t.arg(0).as_long()
        elif nm == 'str':
            s = t.arg(0)
            if s.num_args() == 0 and s.decl().name().startswith('lit!'):
                return CONSTS.str_lits[int(s.decl().name()[4:])]
        elif nm == 'kst':
            if z3.is_int_value(t.arg(0)):
                return CONSTS.objs[t.arg(0).as_long()]
        elif nm == 'nan' and t.num_args() == 0:
            return float('nan')
        elif nm == 'inf':
            if z3.is_true(t.arg(0)):
                return float('inf')
            if z3.is_false(t.arg(0)):
                return float('-inf')
        elif nm in ('tnil', 'tcons'):
            items = []
            cur = t
            while cur.decl().name() == 'tcons':
                items.append(self.unlift(cur.arg(0)))
                cur = cur.arg(1)
            if cur.decl().name() == 'tnil':
                return STuple(items)
        return SV(t)

    def ctor(self, t):
        """The constructor name if the term is a constructor application, else None."""
        nm = t.decl().name()
        if nm in ('none', 'bool', 'int', 'flt', 'inf', 'nan', 'str', 'ref', 'kst', 'tnil',
                  'tcons') and t.sort() == Val:
            return nm
        return None

    CTOR_CLS = {'none': type(None), 'bool': bool, 'int': int, 'flt': float, 'inf': float,
                'nan': float, 'str': str, 'tnil': tuple, 'tcons': tuple}

    def candidates(self, v):
        """The classes a value can have."""
        if not isinstance(v, SV):
            if isinstance(v, STuple):
                return frozenset([tuple])
            if isinstance(v, (Closure, BoundMethod)):
                return frozenset([types.FunctionType])
            if isinstance(v, SIter):
                return frozenset([AnyIterator])
            if isinstance(v, SGen):
                return frozenset([types.GeneratorType])
            return frozenset([type(v)])
        t = v.t
        c = self.ctor(t)
        if c in self.CTOR_CLS:
            return frozenset([self.CTOR_CLS[c]])
        if c == 'ref' and z3.is_int_value(t.arg(0)):
            return frozenset([self.fresh_cls[t.arg(0).as_long()]])
        if c == 'kst':
            if z3.is_int_value(t.arg(0)):
                return frozenset([type(CONSTS.objs[t.arg(0).as_long()])])
        got = self.typefacts.get(t.get_id())
        if got is not None:
            return got[0]
        self.touch(t)
        return frozenset(UNIVERSE.classes)

    def touch(self, t):
        """Assert the link between constructors and class tags for a term."""
        key = ('kind', t.get_id())
        if key in self.memo or self.ctor(t) is not None:
            return
        self.memo[key] = t
        cl = clsof(t)
        cid = UNIVERSE.cid
        fs = [z3.Implies(Val.is_none(t), cl == cid(type(None))),
              z3.Implies(Val.is_bool(t), cl == cid(bool)),
              z3.Implies(Val.is_int(t), cl == cid(int)),
              z3.Implies(z3.Or(Val.is_flt(t), Val.is_inf(t), Val.is_nan(t)), cl == cid(float)),
              z3.Implies(Val.is_str(t), cl == cid(str)),
              z3.Implies(z3.Or(Val.is_tnil(t), Val.is_tcons(t)), cl == cid(tuple))]
        consts = [cid(c) for c in UNIVERSE.classes if is_const_class(c)]
        heap = [cid(c) for c in UNIVERSE.classes if not is_const_class(c)
                and not is_scalar_class(c)]
        fs.append(z3.Implies(Val.is_const(t), z3.Or([cl == k for k in consts])))
        fs.append(z3.Implies(Val.is_ref(t), z3.Or([cl == k for k in heap])))
        self.assume(z3.And(fs))

    def narrow(self, t, classes):
        classes = frozenset(classes)
        if self.ctor(t) is not None and self.ctor(t) not in ('ref', 'kst'):
            return
        self.touch(t)
        self.typefacts[t.get_id()] = (classes, t)
        self.assume(z3.Or([clsof(t) == UNIVERSE.cid(c) for c in classes]))
        # constructor knowledge follows for the scalar and heap classes
        self.assume(self.ctor_fact(t, classes))

    def ctor_fact(self, t, classes):
        opts = []
        for c in classes:
            if c is type(None):
                opts.append(Val.is_none(t))
            elif c is bool:
                opts.append(Val.is_bool(t))
            elif c is int:
                opts.append(Val.is_int(t))
            elif c is float:
                opts.append(z3.Or(Val.is_flt(t), Val.is_inf(t), Val.is_nan(t)))
            elif c is str:
                opts.append(Val.is_str(t))
            elif c is tuple:
                opts.append(z3.Or(Val.is_tnil(t), Val.is_tcons(t), Val.is_ref(t)))
            elif is_const_class(c):
                opts.append(Val.is_const(t))
            else:
                opts.append(Val.is_ref(t))
        return z3.Or(opts)

    def type_test(self, v, pred):
        """A boolean value: does the class of v satisfy pred?"""
        cands = self.candidates(v)
        yes = frozenset(c for c in cands if pred(c))
        if len(yes) == len(cands):
            return True
        if not yes:
            return False
        no = cands - yes
        small, neg = (yes, False) if len(yes) <= len(no) else (no, True)
        f = z3.Or([clsof(v.t) == UNIVERSE.cid(c) for c in small])
        if neg:
            f = z3.Not(f)
        return TypeTest(Val.bool(f), v, yes, no)

    def decide(self, b):
        """Branch on an engine boolean value."""
        if b is True or b is False:
            return b
        if isinstance(b, TypeTest):
            r = self.branch(Val.b(b.t))
            self.narrow(b.subject.t, b.yes if r else b.no)
            return r
        if isinstance(b, SV):
            return self.branch(Val.b(b.t))
        raise Unsupported(f"not a boolean: {b!r}")

    def isinstance_(self, v, classinfo):
        return self.type_test(v, lambda c: issubclass(c, classinfo))

    def resolve_class(self, v):
        """Fork until the class of v is a single class."""
        cands = self.candidates(v)
        while len(cands) > 1:
            feas = [c for c in cands
                    if self.feasible(clsof(v.t) == UNIVERSE.cid(c))]
            if not feas:
                raise PathAbort()
            if len(feas) == 1:
                self.narrow(v.t, feas)
                return feas[0]
            pick = sorted(feas, key=lambda c: UNIVERSE.cid(c))[0]
            if self.branch(clsof(v.t) == UNIVERSE.cid(pick)):
                self.narrow(v.t, [pick])
            else:
                self.narrow(v.t, [c for c in feas if c is not pick])
            cands = self.candidates(v)
        return next(iter(cands))

    # ------------------------------------------------------------ symbolic inputs
    def any_value(self, hint='v', classes=None):
        """An arbitrary input value; ref inputs are pre-existing objects (address > 0)."""
        t = self.fresh(Val, hint)
        self.touch(t)
        self.assume(z3.Implies(Val.is_ref(t), Val.a(t) > 0))
        if classes is not None:
            self.narrow(t, classes)
        return self.unlift(t)

    def obj(self, cls, hint=None):
        """An arbitrary pre-existing instance of exactly cls (or one of a tuple of classes)."""
        classes = cls if isinstance(cls, (tuple, list, set, frozenset)) else (cls,)
        return self.any_value(hint or next(iter(classes)).__name__.lower(), classes)

    # ------------------------------------------------------------ heap
    def alloc(self, cls):
        a = self.next_addr
        self.next_addr -= 1
        self.fresh_cls[a] = cls
        t = Val.ref(z3.IntVal(a))
        self.assume(clsof(t) == UNIVERSE.cid(cls))
        return SV(t)

    def addr(self, v):
        t = v.t
        if self.ctor(t) == 'ref':
            a = t.arg(0)
            return a.as_long() if z3.is_int_value(a) else a
        return z3.simplify(Val.a(t))

    def same_addr(self, a, b):
        """True / False / undecided condition."""
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        ta = z3.IntVal(a) if isinstance(a, int) else a
        tb = z3.IntVal(b) if isinstance(b, int) else b
        if ta.eq(tb):
            return True
        return ta == tb

    def lookup_log(self, log, addr):
        for a, val in reversed(log):
            c = self.same_addr(a, addr)
            if c is True:
                return val
            if c is False:
                continue
            if self.branch(c):
                return val
        return MISSING

    def at(self, a):
        return z3.IntVal(a) if isinstance(a, int) else a

    def read_field(self, v, f):
        addr = self.addr(v)
        got = self.lookup_log(self.fields.get(f, []), addr)
        if got is not MISSING:
            return got
        if isinstance(addr, int) and addr < 0:
            return MISSING
        return self.base_field(v, addr, f)

    def base_field(self, v, addr, f):
        """The field in the pre-state, with the class invariants of its owner."""
        term = z3.Function(f'H_{f}', I, Val)(self.at(addr))
        key = ('base', term.get_id())
        if key in self.memo:
            return self.memo[key][1]
        cands = self.candidates(v)
        specs = {}
        for c in cands:
            s = self.shapes.field(c, f) if self.shapes else None
            if s is not None:
                specs[c] = s
        if not specs:
            return MISSING
        if len(specs) != len(cands):
            if self.decide(self.type_test(v, lambda c: c in specs)):
                pass
            else:
                return MISSING
        first = next(iter(specs.values()))
        conc = first.concrete(self, v, term) if all(s is first for s in specs.values()) else None
        if conc is not None:
            self.memo[key] = (term, conc[0])
            return conc[0]
        self.touch(term)
        self.assume(z3.Implies(Val.is_ref(term), Val.a(term) > 0))
        allowed = set()
        for s in specs.values():
            allowed |= set(s.classes)
        self.narrow(term, allowed)
        val = self.unlift(term)
        self.memo[key] = (term, val)
        for c, s in specs.items():
            guard = clsof(v.t) == UNIVERSE.cid(c) if len(specs) > 1 else None
            fs = []
            if set(s.classes) != allowed:
                fs.append(z3.Or([clsof(term) == UNIVERSE.cid(k) for k in s.classes]))
            fs += s.facts(self, v, term)
            for x in fs:
                self.assume(x if guard is None else z3.Implies(guard, x))
        if len({id(s) for s in specs.values()}) == 1:
            first.attach(self, v, term)
        return val

    def write_field(self, v, f, val):
        self.fields.setdefault(f, []).append((self.addr(v), val))
        self.events.append(('write', self.addr(v), f, val))

    def get_content(self, v, kind):
        addr = self.addr(v)
        got = self.lookup_log([(a, c) for a, c in self.contents if isinstance(c, kind)], addr)
        if got is not MISSING:
            return got
        if isinstance(addr, int) and addr < 0:
            raise Unsupported("container without contents")
        return self.base_content(v, addr, kind)

    def base_content(self, v, addr, kind):
        a = self.at(addr)
        key = ('bcontent', a.get_id(), kind)
        if key in self.memo:
            return self.memo[key][1]
        if kind is CSeq:
            n = LLEN(a)
            self.assume(n >= 0)
            c = CSeq(n=n, arr=LEL(a))
            shape = self.list_shapes.get(v.t.get_id())
            if shape is not None:
                shape.content_facts(self, v, n, LEL(a))
        elif kind is CMap:
            c = CMap(dom=DDOM(a), map=DMAP(a), size=DSIZE(DDOM(a)))
            self.assume(c.size >= 0)
            shape = self.list_shapes.get(v.t.get_id())
            if shape is not None:
                shape.content_facts(self, v, c)
        else:
            c = CSet(dom=DDOM(a), size=DSIZE(DDOM(a)))
            self.assume(c.size >= 0)
            shape = self.list_shapes.get(v.t.get_id())
            if shape is not None:
                shape.content_facts(self, v, c)
        self.memo[key] = (a, c)
        return c

    def set_content(self, v, c):
        self.contents.append((self.addr(v), c))
        self.events.append(('content', self.addr(v), c))

    # list helpers -------------------------------------------------
    def new_list(self, items, cls=list):
        r = self.alloc(cls)
        self.set_content(r, CSeq(spine=tuple(items)))
        return r

    def new_seq(self, n, arr, cls=list):
        r = self.alloc(cls)
        self.set_content(r, CSeq(n=n, arr=arr))
        return r

    def seq_terms(self, c):
        """(length term, array term) of a CSeq."""
        if c.spine is None:
            return c.n, c.arr
        arr = z3.K(I, Val.none)
        for i, x in enumerate(c.spine):
            arr = z3.Store(arr, z3.IntVal(i), self.lift(x))
        return z3.IntVal(len(c.spine)), arr

    def new_dict(self, pairs=(), cls=dict):
        r = self.alloc(cls)
        self.set_content(r, CMap(spine=tuple(pairs)))
        return r

    def map_terms(self, c):
        if c.spine is None:
            return c.dom, c.map
        dom = z3.K(Val, z3.BoolVal(False))
        m = z3.K(Val, Val.none)
        for k, x in c.spine:
            dom = z3.Store(dom, self.lift(k), z3.BoolVal(True))
            m = z3.Store(m, self.lift(k), self.lift(x))
        return dom, m

    def set_term(self, c):
        if c.spine is None:
            return c.dom
        dom = z3.K(Val, z3.BoolVal(False))
        for k in c.spine:
            dom = z3.Store(dom, self.lift(k), z3.BoolVal(True))
        return dom

    # ------------------------------------------------------------ obligations
    def cover(self, label):
        """Record that a situation is reachable (vacuity guard)."""
        if self.covered.get(label):
            return
        if self.feasible():
            self.covered[label] = True

    def prove(self, name, goal, timeout=None):
        """Discharge facts => goal; record the outcome."""
        if isinstance(goal, SV):
            goal = Val.b(goal.t)
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        t0 = time.time()
        status, detail, backend = self.check_valid(goal, timeout or self.prove_timeout)
        dt = time.time() - t0
        self.stats['solver_s'] += dt
        self.obligations.append(Obligation(name, status, detail, dt, backend))
        return status == 'discharged'

    def check_valid(self, goal, timeout):
        goal_s = z3.simplify(goal)
        if z3.is_true(goal_s):
            return 'discharged', 'trivial', 'simplifier'
        s = z3.Solver()
        s.set('timeout', timeout)
        s.add(self.facts)
        s.add(z3.Not(goal_s))
        r = s.check()
        if r == z3.unsat:
            return 'discharged', '', 'z3'
        if r == z3.sat:
            m = s.model()
            return 'failed', self.describe(m), 'z3'
        if ground_refutes(self.facts, goal_s):
            return 'discharged', '', 'z3'
        # second opinion
        r2 = cvc5_check(s.to_smt2(), max(4, timeout // 1500))
        if r2 == 'unsat':
            return 'discharged', '', 'cvc5'
        return 'unknown', f"z3: {s.reason_unknown()}; cvc5: {r2}", 'z3+cvc5'

    def ground_entails(self, f, timeout=2000):
        """Whether the facts without quantifiers imply f."""
        s = z3.Solver()
        s.set('timeout', timeout)
        s.add([g for g in self.facts if not has_quant(g)])
        s.add(z3.Not(f))
        return s.check() == z3.unsat

    def entails(self, goal, timeout=3000):
        s = z3.Solver()
        s.set('timeout', timeout)
        s.add(self.facts)
        s.add(z3.Not(goal))
        t0 = time.time()
        r = s.check()
        self.stats['solver_s'] += time.time() - t0
        return r == z3.unsat

    def describe(self, model):
        lines = []
        for d in model.decls():
            nm = d.name()
            if d.arity() == 0 and not nm.startswith('lit!'):
                lines.append(f"{nm} = {model[d]}")
        lines.sort()
        classes = ", ".join(f"{i}:{c.__name__}" for i, c in enumerate(UNIVERSE.classes))
        return "\n".join(lines[:60]) + "\n(class ids: " + classes + ")"


def cvc5_check(smt2, timeout_s):
    """Run cvc5 on an SMT-LIB2 problem produced by z3."""
    import subprocess
    import tempfile
    import os
    smt2 = "(set-logic ALL)\n" + smt2
    if os.environ.get('PYVC_DUMP'):
        open(os.environ['PYVC_DUMP'], 'w').write(smt2)
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(smt2)
        path = f.name
    try:
        p = subprocess.run(['cvc5', f'--tlimit={int(timeout_s * 1000)}', path],
                           capture_output=True, text=True, timeout=timeout_s + 5)
        out = p.stdout.strip().splitlines()
        return out[0] if out else 'error:' + p.stderr.strip()[:200]
    except Exception as e:  # noqa: BLE001
        return f'error: {e}'
    finally:
        os.unlink(path)

"""Proof units: one contract, checked on every path of the real code."""
import time
import traceback

from .ctx import Ctx, MISSING, Obligation, PathAbort, PyRaise, Unsupported  # noqa: F401
from .interp import Interp
from .values import *  # noqa: F401,F403


class Unit:
    def __init__(self, prop, name, body, covers=(), setup=None, budget=120, note="",
                 shapes=True, kind='proof'):
        self.prop, self.name, self.body = prop, name, body
        self.covers, self.setup, self.budget, self.note = tuple(covers), setup, budget, note
        self.shapes, self.kind = shapes, kind

    def __repr__(self):
        return f"<unit {self.prop}:{self.name}>"


REGISTRY = {}


def unit(prop, name, covers=(), setup=None, budget=120, note="", shapes=True, tier='quick'):
    """Register a proof unit: the decorated function states and proves one contract."""
    def deco(fn):
        u = Unit(prop, name, fn, covers, setup, budget, note, shapes)
        u.tier = tier
        REGISTRY.setdefault(prop, {})[name] = u
        return fn
    return deco


def outcome(thunk):
    """('ret', value) or ('raise', exception)."""
    try:
        return 'ret', thunk()
    except PyRaise as e:
        return 'raise', e.exc


class Result:
    """What happened to one unit."""

    def __init__(self, unit):
        self.unit = f"{unit.prop}:{unit.name}"
        self.name = unit.name
        self.status = 'unsupported'  # proved | failed | unknown | unsupported | vacuous
        self.reason = ''
        self.obligations = []
        self.functions = []
        self.contracts = []
        self.natives = []
        self.assumed = []
        self.paths = 0
        self.void = 0
        self.seconds = 0.0
        self.solver_s = 0.0

    def as_dict(self):
        return dict(self.__dict__)


def run_unit(u, shapes=None, prove_timeout=None):
    res = Result(u)
    t0 = time.time()
    ctx = Ctx(shapes if u.shapes else None, unit_name=u.name)
    if prove_timeout:
        ctx.prove_timeout = prove_timeout
    ctx.deadline = t0 + u.budget
    try:
        def body(c):
            interp = Interp(c)
            c.interp = interp
            u.body(c, interp)
        if u.setup:
            u.setup(ctx)
        ctx.run(body)
        bad = [o for o in ctx.obligations if o.status == 'failed']
        unk = [o for o in ctx.obligations if o.status == 'unknown']
        missing = [c for c in u.covers if not ctx.covered.get(c)]
        if bad:
            res.status = 'failed'
            res.reason = f"obligation not valid: {bad[0].name}"
        elif unk:
            res.status = 'unknown'
            res.reason = f"obligation not discharged: {unk[0].name}"
        elif not ctx.obligations:
            res.status, res.reason = 'vacuous', "no obligations were generated"
        elif missing:
            res.status, res.reason = 'vacuous', f"situations not reached: {missing}"
        else:
            res.status = 'proved'
    except Unsupported as e:
        res.reason = f"not supported: {e}"
    except PyRaise as e:
        res.reason = f"unexpected exception escaped the contract: {e.exc!r} {e.exc.args!r:.200}"
    except Exception:  # noqa: BLE001
        res.reason = "engine error: " + traceback.format_exc(limit=-6)
    # a failure already found stands, whatever happened afterwards
    if res.status == 'unsupported':
        bad = [o for o in ctx.obligations if o.status == 'failed']
        if bad:
            res.status = 'failed'
            res.reason = f"obligation not valid: {bad[0].name} (then {res.reason})"
    res.obligations = [dict(name=o.name, status=o.status, detail=o.detail[:4000],
                            seconds=round(o.seconds, 4), backend=o.backend)
                       for o in ctx.obligations]
    res.functions = sorted(ctx.stats['interpreted'])
    res.contracts = sorted(ctx.stats['contracts_used'])
    res.natives = sorted(ctx.stats['natives'])
    res.assumed = sorted(ctx.stats['assumed'])
    res.paths = ctx.stats['paths']
    res.void = ctx.stats.get('void', 0)
    res.solver_s = round(ctx.stats['solver_s'], 3)
    res.seconds = round(time.time() - t0, 3)
    return res

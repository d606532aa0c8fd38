"""C11: the validation level is always restored."""
import gemd.entity.bounds_validation as bv

from pyvc.ctx import PyRaise
from pyvc.interp import ReturnEx
from pyvc.unit import unit, outcome
from pyvc.values import *  # noqa: F401,F403

LEVELS = list(bv.WarningLevel)
MOD = bv.__name__


def any_level(ctx):
    return LEVELS[ctx.choose(len(LEVELS))]


class _Marker(Exception):
    pass


def get_level(interp):
    return interp.call(bv.get_validation_level, [])


def set_state(ctx, interp):
    """Bring the real module state to an arbitrary level, through its own interface."""
    lvl = any_level(ctx)
    interp.call(bv.set_validation_level, [lvl])
    return lvl


@unit('C11', 'validation_level restores on every exit',
      covers=['normal', 'raise', 'return', 'bad-level'])
def restores(ctx, interp):
    before = set_state(ctx, interp)
    ctx.prove('set_validation_level then get_validation_level', get_level(interp) is before)
    arg = ctx.any_value('level')
    mgr = interp.call(bv.validation_level, [arg])
    seen = []
    way = ['normal', 'raise', 'return', 'baseexc'][ctx.choose(4)]

    def block(value):
        seen.append((value, get_level(interp)))
        # the block may do anything, including setting the level itself
        if ctx.choose(2):
            interp.call(bv.set_validation_level, [any_level(ctx)])
        if way == 'raise':
            raise PyRaise(SExc(_Marker))
        if way == 'baseexc':
            raise PyRaise(SExc(KeyboardInterrupt))
        if way == 'return':
            raise ReturnEx(None)
    exc = None
    left = 'normal'
    try:
        interp.with_manager(mgr, block)
    except PyRaise as e:
        exc, left = e.exc, 'raise'
    except ReturnEx:
        left = 'return'
    after = get_level(interp)
    ctx.prove('level after the block is the level before it', after is before)
    if seen:
        ctx.cover(left)
        ctx.prove('the level inside is a level, the one asked for',
                  ctx.interp.eq(arg, seen[0][1]) if seen[0][1] in LEVELS else False)
        if way == 'raise':
            ctx.prove('the block exception is not swallowed',
                      exc is not None and exc.cls is _Marker)
        elif way == 'baseexc':
            ctx.prove('an interrupt is not swallowed',
                      exc is not None and exc.cls is KeyboardInterrupt)
        else:
            ctx.prove('no exception from leaving', exc is None)
    else:
        ctx.cover('bad-level')
        ctx.prove('a block that is not entered raises', exc is not None)
        ok = [ctx.interp.eq(arg, l) for l in LEVELS]
        for o in ok:
            ctx.prove('only unknown levels are rejected', ctx.interp.not_(o))


@unit('C11', 'nested blocks restore level by level', covers=['inner'])
def nested(ctx, interp):
    before = set_state(ctx, interp)
    l1, l2 = any_level(ctx), any_level(ctx)
    fail_inner, fail_outer = ctx.choose(2), ctx.choose(2)

    def outer(_):
        def inner(_):
            ctx.cover('inner')
            ctx.prove('inner level in force', get_level(interp) is l2)
            if fail_inner:
                raise PyRaise(SExc(_Marker))
        try:
            interp.with_manager(interp.call(bv.validation_level, [l2]), inner)
        except PyRaise:
            pass
        ctx.prove('outer level back after the inner block', get_level(interp) is l1)
        if fail_outer:
            raise PyRaise(SExc(_Marker))
    try:
        interp.with_manager(interp.call(bv.validation_level, [l1]), outer)
    except PyRaise:
        pass
    ctx.prove('original level back after the outer block', get_level(interp) is before)


@unit('C11', 'set_validation_level accepts exactly the levels', covers=['accepted', 'rejected'])
def set_level(ctx, interp):
    before = set_state(ctx, interp)
    arg = ctx.any_value('level')
    kind, _ = outcome(lambda: interp.call(bv.set_validation_level, [arg]))
    after = get_level(interp)
    if kind == 'ret':
        ctx.cover('accepted')
        ctx.prove('the level stored is a member equal to the argument',
                  interp.eq(arg, after) if after in LEVELS else False)
    else:
        ctx.cover('rejected')
        ctx.prove('a rejected level changes nothing', after is before)
        for l in LEVELS:
            ctx.prove('only unknown levels are rejected', interp.not_(interp.eq(arg, l)))

"""C11 concrete contract: the validation level is always restored."""
from gemd.entity.bounds_validation import (WarningLevel, get_validation_level,
                                           set_validation_level, validation_level)


class Boom(BaseException):
    pass


def nested(rng):
    levels = list(WarningLevel)
    set_validation_level(rng.choice(levels))

    def block(depth):
        before = get_validation_level()
        lvl = rng.choice(levels)
        arg = rng.choice([lvl, int(lvl)])
        exit_ = rng.choice(['normal', 'exception', 'base', 'break', 'return', 'set'])

        def body():
            for _ in (0,):
                with validation_level(arg) as old:
                    assert old == before, "the block is not told the previous level"
                    assert get_validation_level() == lvl, "the level is not in force in the block"
                    for _ in range(rng.randint(0, 2)):
                        if depth:
                            try:
                                block(depth - 1)
                            except (KeyError, Boom):
                                pass
                        assert get_validation_level() == lvl, "an inner block leaked its level"
                    if exit_ == 'set':
                        set_validation_level(rng.choice(levels))
                    if exit_ == 'exception':
                        raise KeyError(1)
                    if exit_ == 'base':
                        raise Boom()
                    if exit_ == 'break':
                        break
                    if exit_ == 'return':
                        return
        try:
            body()
            assert exit_ not in ('exception', 'base'), "the block swallowed an exception"
        except (KeyError, Boom):
            assert exit_ in ('exception', 'base')
        assert get_validation_level() == before, \
            f"level {before!r} was not restored after leaving the block by {exit_}"
        assert type(get_validation_level()) is WarningLevel
    block(3)


def as_decorator_and_generator(rng):
    levels = list(WarningLevel)
    a, b = rng.choice(levels), rng.choice(levels)
    set_validation_level(a)

    def g():
        with validation_level(b):
            yield 1
            yield 2
    it = g()
    next(it)
    assert get_validation_level() == b
    it.close()
    assert get_validation_level() == a, "abandoning a generator leaks its level"


def unknown(rng):
    for lvl in WarningLevel:
        set_validation_level(rng.choice([lvl, int(lvl)]))
        for bad in (rng.choice([3, -1, 17, 2.5]), 'FATAL', None, [], 'ignore'):
            for f in (lambda: set_validation_level(bad), lambda: validation_level(bad).__enter__()):
                try:
                    f()
                except Exception:
                    assert get_validation_level() is lvl, f"rejected level {bad!r} changed the level"
                else:
                    assert False, f"level {bad!r} accepted"
        assert get_validation_level() is lvl


CHECKS = dict(nested=nested, generator=as_decorator_and_generator, unknown=unknown)
SCALE = dict(nested=4.0, generator=0.5, unknown=1.0)

"""C10 concrete contract: template limits follow the validation level."""
import logging

from gemd.entity.attribute import Condition, Parameter, Property, PropertyAndConditions
from gemd.entity.bounds_validation import WarningLevel, validation_level
from gemd.entity.dict_serializable import logger
from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.object import (MaterialSpec, MeasurementRun, MeasurementSpec, ProcessRun,
                                ProcessSpec)
from gemd.entity.template import (ConditionTemplate, MaterialTemplate, MeasurementTemplate,
                                  ParameterTemplate, ProcessTemplate, PropertyTemplate)

from . import gen

TPL = {Property: PropertyTemplate, Condition: ConditionTemplate, Parameter: ParameterTemplate}
FIELD = {Property: 'properties', Condition: 'conditions', Parameter: 'parameters'}


class Log(logging.Handler):
    def __init__(self):
        super().__init__(logging.WARNING)
        self.n = 0

    def emit(self, record):
        self.n += 1

    def __enter__(self):
        self.old = logger.propagate, logger.disabled, logger.level
        logger.propagate = False
        logger.disabled = False
        logger.setLevel(logging.WARNING)
        logger.addHandler(self)
        return self

    def __exit__(self, *a):
        logger.removeHandler(self)
        logger.propagate, logger.disabled = self.old[:2]
        logger.setLevel(self.old[2])


def judge(level, fine, op, check_same, check_done, what):
    """Run op under the level: fine says whether the limits hold."""
    with validation_level(level), Log() as log:
        try:
            op()
            raised = False
        except ValueError:
            raised = True
    if fine or level == WarningLevel.IGNORE:
        assert not raised, f"{what}: rejected although nothing is out of bounds ({level.name})"
        assert log.n == 0, f"{what}: complained without reason ({level.name})"
        check_done()
    elif level == WarningLevel.WARNING:
        assert not raised, f"{what}: raised at the warning level"
        assert log.n > 0, f"{what}: no warning logged"
        check_done()
    else:
        assert raised, f"{what}: out-of-bounds assignment accepted at the strictest level"
        check_same()


def related(rng, b):
    """A value, often near the limits of the bounds b."""
    r = rng.random()
    if r < 0.45:
        return gen.value_for(rng, b)
    if isinstance(b, gen.RealBounds):
        return gen.NominalReal(rng.choice([b.lower_bound - 1, b.upper_bound + 1, b.upper_bound,
                                           (b.lower_bound + b.upper_bound) / 2]),
                               b.default_units)
    if isinstance(b, gen.IntegerBounds):
        return gen.NominalInteger(rng.randint(b.lower_bound - 2, b.upper_bound + 2))
    if isinstance(b, gen.CategoricalBounds) and b.categories:
        return gen.NominalCategorical(rng.choice(sorted(b.categories) + ['other']))
    return gen.value(rng)


def attribute(rng):
    """Value and template setters of one attribute, in any order."""
    cls = rng.choice(list(TPL))
    tpls = [TPL[cls]('t', bounds=gen.bounds(rng)) for _ in range(2)]
    o = cls('a')
    for _ in range(rng.randint(1, 6)):
        level = rng.choice(list(WarningLevel))
        v0, t0 = o.value, o.template

        def same():
            assert o.value is v0 and o.template is t0, "a rejected assignment changed the attribute"
        if rng.random() < 0.5:
            v = None if rng.random() < 0.15 else related(rng, rng.choice(tpls).bounds)
            fine = v is None or not isinstance(t0, TPL[cls]) or t0.bounds.contains(v)

            def done():
                assert o.value is v and o.template is t0, "value not stored"
            judge(level, fine, lambda: setattr(o, 'value', v), same, done,
                  f"{cls.__name__}.value={v} under {t0}")
        else:
            r = rng.random()
            t = None if r < 0.2 else LinkByUID('s', 'i') if r < 0.35 else rng.choice(tpls)
            fine = v0 is None or not isinstance(t, TPL[cls]) or t.bounds.contains(v0)

            def done():
                assert o.template is t and o.value is v0, "template not stored"
            judge(level, fine, lambda: setattr(o, 'template', t), same, done,
                  f"{cls.__name__}.template={t} for {v0}")
    for attr, bad in (('value', 3), ('value', 'x'), ('template', 3),
                      ('template', MaterialTemplate('m')),
                      ('template', TPL[rng.choice([c for c in TPL if c is not cls])](
                          'q', bounds=gen.RealBounds(0, 1, '')))):
        with validation_level(rng.choice(list(WarningLevel))):
            v0, t0 = o.value, o.template
            try:
                setattr(o, attr, bad)
                assert False, f"{attr}={bad!r} accepted"
            except TypeError:
                assert o.value is v0 and o.template is t0
    # constructor
    t, lvl = rng.choice(tpls), rng.choice(list(WarningLevel))
    v = related(rng, t.bounds)
    box = []
    judge(lvl, v is None or t.bounds.contains(v),
          lambda: box.append(cls('a', template=t, value=v)), lambda: None,
          lambda: None, f"constructor {v} under {t}")


def limits(pairs, tcls, a):
    """Whether attribute a respects the object template's list (specification)."""
    for t, b in pairs:
        if a.template is not None:
            hit = a.template == t
        else:
            hit = isinstance(t, tcls) and t.name == a.name
        if hit:
            if b is not None:
                return b.contains(a.value)
            if isinstance(t, tcls):
                return t.bounds.contains(a.value)
            return True
    return True


def narrow(rng, t):
    b = gen.narrowed(rng, t.bounds)
    return b


def objects(rng):
    kind = rng.choice(['mat', 'proc', 'meas'])
    ot, spec_cls, run_cls, fields = {
        'mat': (MaterialTemplate, MaterialSpec, None, [Property]),
        'proc': (ProcessTemplate, ProcessSpec, ProcessRun, [Condition, Parameter]),
        'meas': (MeasurementTemplate, MeasurementSpec, MeasurementRun,
                 [Property, Condition, Parameter])}[kind]
    tpls = {c: [TPL[c](f"t{i}", bounds=gen.bounds(rng),
                       uids={'id': f"{c.__name__}{i}"} if rng.random() < 0.7 else None)
                for i in range(3)] for c in fields}
    args, pairs = {}, {}
    for c in fields:
        p = []
        for t in rng.sample(tpls[c], rng.randint(0, 3)):
            b = narrow(rng, t)
            first = t.to_link() if t.uids and rng.random() < 0.25 else t
            p.append((first, b))
        pairs[c] = p
        args[FIELD[c]] = [x if y is not None or rng.random() < 0.5 else x[0]
                          for x in p for y in [x[1]]]
    template = ot('template', **args)
    for c in fields:
        assert [tuple(x) for x in getattr(template, FIELD[c])] == pairs[c], \
            f"the template stores {getattr(template, FIELD[c])}"
    given = rng.choice([template, template, template, None, LinkByUID('s', 't')])
    use_run = run_cls is not None and rng.random() < 0.5
    spec = spec_cls('s', template=given)
    if use_run:
        host = run_cls('r', spec=rng.choice([spec, spec, spec, LinkByUID('s', 'x'), None]))
        active = given if host.spec is spec else None
    else:
        host, active = spec, given
    choices = fields
    if kind == 'meas' and not use_run:
        choices = [Condition, Parameter]
    c = rng.choice(choices)
    field = FIELD[c]

    def make():
        t = rng.choice(tpls[c])
        r = rng.random()
        tt = t if r < 0.4 else t.to_link() if r < 0.6 and t.uids else None
        nm = rng.choice(['t0', 't1', 't2', 'z', 'T0'])
        ref = next((b for x, b in pairs[c] if b is not None and x == t), t.bounds)
        v = related(rng, rng.choice([ref, t.bounds]))
        if v is None and rng.random() < 0.5:
            v = gen.value(rng)
        with validation_level(WarningLevel.IGNORE):
            a = c(nm, template=tt, value=v)
            return PropertyAndConditions(a) if kind == 'mat' else a

    def core(a):
        return a.property if kind == 'mat' else a

    def fine(items):
        return active is not template or all(limits(pairs[c], TPL[c], core(a)) for a in items)
    for _ in range(rng.randint(1, 4)):
        if rng.random() < 0.3:
            # the object template changes: what is added from now on follows the new one
            active = rng.choice([template, template, ot('other'), None, LinkByUID('s', 't')])
            if use_run:
                if rng.random() < 0.5:
                    host.spec = spec_cls('s2', template=active)
                elif host.spec is spec:
                    spec.template = active
                else:
                    active = host.spec.template if isinstance(host.spec, spec_cls) else None
            else:
                host.template = active
        items = [make() for _ in range(rng.randint(1, 3))]
        old = getattr(host, field)
        cur = list(old)
        level = rng.choice(list(WarningLevel))
        op = rng.choice(['assign', 'append', 'extend', 'insert', 'item', 'slice', 'iadd', 'single'])
        if op in ('append', 'insert', 'item', 'single'):
            items = items[:1]
        if op == 'item' and not cur:
            op = 'append'
        k = rng.randint(0, max(0, len(cur) - 1)) if op == 'item' else rng.randint(0, len(cur))
        want = {'assign': items, 'single': items, 'append': cur + items, 'extend': cur + items,
                'iadd': cur + items, 'insert': cur[:k] + items + cur[k:],
                'item': cur[:k] + items + cur[k + 1:], 'slice': cur[:k] + items}[op]

        def run():
            lst = getattr(host, field)
            if op == 'assign':
                setattr(host, field, rng.choice([list, tuple, iter])(items))
            elif op == 'single':
                setattr(host, field, items[0])
            elif op == 'append':
                lst.append(items[0])
            elif op == 'extend':
                lst.extend(items)
            elif op == 'iadd':
                lst += items
            elif op == 'insert':
                lst.insert(k, items[0])
            elif op == 'item':
                lst[k] = items[0]
            else:
                lst[k:] = items

        def same():
            assert getattr(host, field) is old, f"{field} was replaced by a rejected {op}"
            assert len(old) == len(cur) and all(x is y for x, y in zip(old, cur)), \
                f"a rejected {op} changed {field}"

        def done():
            now = getattr(host, field)
            assert len(now) == len(want) and all(x is y for x, y in zip(now, want)), \
                f"{op} on {field} stored {len(now)} elements instead of {len(want)}"
        judge(level, fine(items), run, same, done,
              f"{type(host).__name__}.{field} {op} {[core(a).as_dict() for a in items]!r:.300}")


def ranges(rng):
    """The narrowed bounds stored in an object template never exceed the attribute template's."""
    c = rng.choice(list(TPL))
    t = TPL[c]('t', bounds=gen.bounds(rng), uids={'a': 'b'})
    b = gen.bounds(rng) if rng.random() < 0.5 else gen.narrowed(rng, t.bounds)
    ot = MeasurementTemplate('m')
    f = FIELD[c]
    with validation_level(rng.choice(list(WarningLevel))):
        ok = b is None or t.bounds.contains(b)
        try:
            setattr(ot, f, [(t, b)])
            done = True
        except ValueError:
            done = False
        assert done == ok, f"{t.bounds} narrowed to {b}: {'accepted' if done else 'rejected'}"
        assert len(getattr(ot, f)) == int(done)
        setattr(ot, f, [(t.to_link(), b), [t, None], t])
        assert [tuple(x) for x in getattr(ot, f)] == [(t.to_link(), b), (t, None), (t, None)]
        for bad in ([(t, 3)], [(b or t.bounds, t)], [3], ['x'], [(t,)], [(t, None, None)], [('a', b)],
                    [MaterialTemplate('z')]):
            try:
                setattr(ot, f, bad)
            except (TypeError, ValueError):
                assert len(getattr(ot, f)) == 3, "a rejected assignment changed the list"
                continue
            assert False, f"{f}={bad!r} accepted"


CHECKS = dict(attribute=attribute, objects=objects, ranges=ranges)
SCALE = dict(attribute=4.0, objects=8.0, ranges=2.0)

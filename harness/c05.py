"""C05 concrete contract: typed lists."""
from gemd.entity.attribute import Condition, Parameter, Property, PropertyAndConditions
from gemd.entity.file_link import FileLink
from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.setters import validate_list
from gemd.entity.valid_list import ValidList

from . import gen


class Boom(Exception):
    pass


def iterables(rng, items):
    k = rng.randrange(6)
    if k == 0:
        return list(items)
    if k == 1:
        return tuple(items)
    if k == 2:
        return iter(list(items))
    if k == 3:
        return (x for x in items)
    if k == 4:
        return dict.fromkeys(range(len(items)), None) and {i: x for i, x in enumerate(items)
                                                          }.values()
    return map(lambda x: x, items)


def element(rng, good):
    # few distinct values, so that elements of different types are often equal
    pool = {str: lambda: rng.choice([gen.word(rng), 'a']),
            int: lambda: rng.choice([0, 1, 2, rng.randint(-3, 300)]),
            float: lambda: rng.choice([0.0, 1.0, 2.0, 1.5]),
            bytes: lambda: b'x', list: lambda: ['in'], type(None): lambda: None,
            bool: lambda: rng.random() < 0.5, LinkByUID: lambda: LinkByUID('a', 'b'),
            dict: lambda: {'a': 1}}
    if rng.random() < 0.75:
        return pool[rng.choice(good)]()
    return pool[rng.choice(list(pool))]()


def history(rng):
    good = rng.sample([str, int, float, LinkByUID, list, dict], rng.randint(1, 3))
    ct = rng.choice([lambda: good[0] if len(good) == 1 else good, lambda: list(good),
                     lambda: tuple(good), lambda: iter(list(good))])()
    hook = None
    if rng.random() < 0.5:
        def hook(x):
            if isinstance(x, str):
                return x + '!'
            if isinstance(x, bool) or not isinstance(x, int):
                return None
            return x + 1000

    def app(x):
        if hook is None:
            return x
        r = hook(x)
        return x if r is None else r

    def ok(xs):
        return all(isinstance(x, tuple(good)) for x in xs)
    init = [element(rng, good) for _ in range(rng.randint(0, 3))]
    if rng.random() < 0.8:
        init = [x for x in init if isinstance(x, tuple(good))]
    how = rng.randrange(2)
    try:
        if how:
            lst = ValidList(iterables(rng, init), ct, hook)
        else:
            lst = validate_list(iterables(rng, init), ct, trigger=hook)
        assert ok(init), f"{init!r} accepted by a list of {good}"
    except TypeError:
        assert not ok(init), f"{init!r} rejected by a list of {good}"
        return
    model = [app(x) for x in init]
    same(lst, model)
    for _ in range(rng.randint(1, 12)):
        op = rng.choice(['append', 'extend', 'insert', 'set', 'slice', 'iadd', 'ext_slice', 'del',
                         'self'])
        x = element(rng, good)
        xs = [element(rng, good) for _ in range(rng.randint(0, 4))]
        before = list(lst)
        new = None
        bad = None
        try:
            if op == 'append':
                new, bad = model + [app(x)], not ok([x])
                lst.append(x)
            elif op == 'extend':
                new, bad = model + [app(y) for y in xs], not ok(xs)
                lst.extend(iterables(rng, xs))
            elif op == 'iadd':
                new, bad = model + [app(y) for y in xs], not ok(xs)
                ref = lst
                lst += iterables(rng, xs)
                assert lst is ref, "in-place addition made another list"
            elif op == 'insert':
                i = rng.randint(-6, 6)
                new, bad = list(model), not ok([x])
                new.insert(i, app(x))
                lst.insert(i, x)
            elif op == 'set':
                if not model:
                    continue
                i = rng.randrange(-len(model), len(model))
                new, bad = list(model), not ok([x])
                new[i] = app(x)
                lst[i] = x
            elif op == 'slice':
                i, j = sorted((rng.randint(0, 5), rng.randint(0, 5)))
                new, bad = list(model), not ok(xs)
                new[i:j] = [app(y) for y in xs]
                lst[i:j] = iterables(rng, xs)
            elif op == 'ext_slice':
                k = len(model[::2])
                ys = [element(rng, good) for _ in range(k)]
                new, bad = list(model), not ok(ys)
                new[::2] = [app(y) for y in ys]
                lst[::2] = ys
            elif op == 'self':
                if len(model) > 8:
                    continue
                hooked = [app(y) for y in model]
                new, bad = model + hooked, not ok(model)
                lst.extend(lst)
            else:
                if not model:
                    continue
                i = rng.randrange(len(model))
                new, bad = model[:i] + model[i + 1:], False
                del lst[i]
            raised = False
        except TypeError:
            raised = True
        if raised:
            assert bad, f"{op} of valid elements was rejected"
            assert len(lst) == len(before) and all(a is b for a, b in zip(lst, before)), \
                f"rejected {op} changed the list"
        else:
            assert not bad, f"{op} stored an element of the wrong type"
            same(lst, new)
            model = new
        for e in lst:
            assert isinstance(e, tuple(good)) or hook is not None, \
                f"{type(e)} in a list of {good}"


def same(lst, model):
    assert len(lst) == len(model), f"{len(model)} elements given, {len(lst)} stored"
    for a, b in zip(lst, model):
        assert type(a) is type(b) and (a is b or a == b), f"{b!r} stored as {a!r}"


def fields(rng):
    """Every list-valued field of every class."""
    w = gen.World(rng, size=4)
    cases = [('tags', str, lambda: gen.word(rng)),
             ('file_links', FileLink, lambda: FileLink('a', 'b')),
             ('conditions', Condition, lambda: Condition(gen.name(rng))),
             ('parameters', Parameter, lambda: Parameter(gen.name(rng))),
             ('properties', Property, lambda: Property(gen.name(rng))),
             ('labels', str, lambda: gen.word(rng)),
             ('allowed_names', str, lambda: gen.word(rng)),
             ('allowed_labels', str, lambda: gen.word(rng))]
    for mk in (w.material_template, w.measurement_template, w.process_template, w.process_spec,
               w.material_spec, w.measurement_spec, w.ingredient_spec, w.process_run,
               w.material_run, w.measurement_run, w.ingredient_run):
        o = mk()
        tname = type(o).__name__
        for attr, typ, good in cases:
            if not hasattr(o, attr) or not writable(o, attr):
                continue
            if 'Template' in tname and attr in ('conditions', 'parameters', 'properties'):
                continue
            if tname == 'MaterialSpec' and attr == 'properties':
                def good():
                    return PropertyAndConditions(Property('p'))
            vals = [good() for _ in range(rng.randint(0, 3))]
            setattr(o, attr, iterables(rng, vals))
            got = getattr(o, attr)
            assert len(got) == len(vals) and all(a is b for a, b in zip(got, vals)), \
                f"{tname}.{attr}: {len(vals)} given, {len(got)} stored"
            for bad in (5, object(), Condition('c') if typ is str else 'text',
                        [good(), 3.5], LinkByUID('a', 'b')):
                try:
                    setattr(o, attr, bad)
                    assert False, f"{tname}.{attr} accepted {bad!r:.40}"
                except TypeError:
                    pass
                for op in ('append', 'insert', 'extend', 'iadd', 'slice', 'item'):
                    cur = getattr(o, attr)
                    was = list(cur)
                    b = bad[1] if isinstance(bad, list) else bad
                    try:
                        if op == 'append':
                            cur.append(b)
                        elif op == 'insert':
                            cur.insert(0, b)
                        elif op == 'extend':
                            cur.extend([b])
                        elif op == 'iadd':
                            cur += [b]
                        elif op == 'slice':
                            cur[0:0] = [b]
                        elif cur:
                            cur[0] = b
                        else:
                            raise TypeError
                        assert False, f"{tname}.{attr}.{op} accepted {b!r:.40}"
                    except TypeError:
                        pass
                    assert getattr(o, attr) is cur
                    assert len(cur) == len(was) and all(x is y for x, y in zip(cur, was)), \
                        f"{tname}.{attr} changed by a rejected {op}"
                assert getattr(o, attr) is got, f"{tname}.{attr} replaced by a rejected value"


def writable(o, attr):
    p = getattr(type(o), attr, None)
    return not isinstance(p, property) or p.fset is not None


def own_lists(rng):
    """A field's list is its own: changing what was passed in does not change the field."""
    src = [gen.word(rng) for _ in range(3)]
    a = gen.MaterialRun('a', tags=src)
    b = gen.MaterialRun('b', tags=a.tags)
    src.append(5)
    a.tags.append('new')
    assert len(b.tags) == 3 and len(a.tags) == 4, "lists are shared between objects"


CHECKS = dict(history=history, fields=fields, own_lists=own_lists)
SCALE = dict(history=6.0, fields=0.5, own_lists=0.2)

"""C19 concrete contract: instantiating a specification."""
from gemd.entity.object import (IngredientRun, IngredientSpec, MaterialRun, MaterialSpec,
                                MeasurementRun, MeasurementSpec, ProcessRun, ProcessSpec)
from gemd.entity.util import make_instance

from . import gen

RUN = {IngredientSpec: IngredientRun, MaterialSpec: MaterialRun, MeasurementSpec: MeasurementRun,
       ProcessSpec: ProcessRun}


def graph(rng):
    """Random specification graph with sharing, gaps, dangling parts and cycles."""
    n = rng.randint(1, 8)
    procs = [ProcessSpec(gen.name(rng)) for _ in range(rng.randint(1, n))]
    mats = [MaterialSpec(gen.name(rng), process=rng.choice(procs) if rng.random() < 0.8 else None)
            for _ in range(n)]
    ings = [IngredientSpec(gen.name(rng), process=rng.choice(procs) if rng.random() < 0.85 else None,
                           material=rng.choice(mats) if rng.random() < 0.85 else None)
            for _ in range(rng.randint(0, 2 * n))]
    meas = [MeasurementSpec(gen.name(rng)) for _ in range(2)]
    return procs, mats, ings, meas


def closure(spec):
    out, todo = [], [spec]
    while todo:
        s = todo.pop()
        if s is None or any(s is x for x in out):
            continue
        out.append(s)
        if isinstance(s, MaterialSpec):
            todo.append(s.process)
        elif isinstance(s, IngredientSpec):
            todo.append(s.material)
        elif isinstance(s, ProcessSpec):
            todo.extend(s.ingredients)
    return out


def spec_state(objs):
    return [({k: id(v) for k, v in vars(o).items()},
             [id(x) for x in getattr(o, 'ingredients', [])], id(getattr(o, 'output_material', None)),
             dict(o.uids), list(o.tags)) for o in objs]


def mirror(rng):
    parts = graph(rng)
    everything = [o for p in parts for o in p]
    root = rng.choice(everything)
    before = spec_state(everything)
    run = make_instance(root)
    assert spec_state(everything) == before, "instantiating changed a specification"
    assert type(run) is RUN[type(root)] and run.spec is root
    want = closure(root)
    # collect runs through forward links and ingredient lists
    runs, todo = [], [run]
    while todo:
        r = todo.pop()
        if r is None or any(r is x for x in runs):
            continue
        runs.append(r)
        if isinstance(r, MaterialRun):
            todo.append(r.process)
        elif isinstance(r, IngredientRun):
            todo.append(r.material)
        elif isinstance(r, ProcessRun):
            todo.extend(r.ingredients)
    by = {}
    for r in runs:
        assert id(r.spec) not in by, f"two runs for {r.spec.name}"
        by[id(r.spec)] = r
    assert set(by) == {id(s) for s in want}, \
        f"{len(by)} runs for {len(want)} reachable specifications"
    for s in want:
        r = by[id(s)]
        assert type(r) is RUN[type(s)], f"{type(s).__name__} became {type(r).__name__}"
        assert r.name == s.name
        if isinstance(s, MaterialSpec):
            assert r.process is (by[id(s.process)] if s.process is not None else None)
        elif isinstance(s, IngredientSpec):
            assert r.material is (by[id(s.material)] if s.material is not None else None)
            if s.process is not None and id(s.process) in by:
                assert r.process is by[id(s.process)], "ingredient run in another process"
            else:
                assert r.process is None
        elif isinstance(s, ProcessSpec):
            assert [id(x) for x in r.ingredients] == [id(by[id(x)]) for x in s.ingredients], \
                "the ingredients do not mirror those of the specification"
            if r.output_material is not None:
                assert r.output_material.process is r
        assert not getattr(r, 'uids')
    again = make_instance(root)
    assert again is not run and again.spec is root


def reject(rng):
    for bad in (MaterialRun('m'), ProcessRun('p'), IngredientRun(), MeasurementRun('x'), None, 1, 'a',
                [MaterialSpec('m')], gen.MaterialTemplate('t'), gen.LinkByUID('a', 'b'),
                gen.Property('p'), MaterialSpec):
        try:
            r = make_instance(bad)
        except TypeError:
            continue
        assert False, f"make_instance({bad!r}) gave {r!r}"
    m = MaterialSpec('m', process=ProcessSpec('p'))
    IngredientSpec('i', process=m.process, material=gen.LinkByUID('a', 'b'))
    for x in (m, MaterialSpec('q', process=gen.LinkByUID('a', 'b'))):
        try:
            make_instance(x)
        except TypeError:
            continue
        assert False, "a specification that is only a link was instantiated"


CHECKS = dict(mirror=mirror, reject=reject)
SCALE = dict(mirror=8.0, reject=0.1)

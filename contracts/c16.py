"""C16: enumerated values resolve by name, synonym and case, uniquely.

The class methods of BaseEnumeration are verified for an arbitrary enumeration: a sequence of members
of unknown length, each with its set of recognised texts.  The invariant -- no text is recognised by
two members -- is established member by member by __new__ and makes from_str a partial function.
"""
import z3

from gemd.entity.attribute import Condition, Parameter, Property
from gemd.entity.object import MaterialRun
from gemd.enumeration import Origin, SampleType
from gemd.enumeration.base_enumeration import BaseEnumeration

from pyvc.models import LOWER
from pyvc.unit import unit, outcome
from pyvc.values import *  # noqa: F401,F403
from pyvc.values import UNIVERSE, Val, clsof, B, I, SExc

from .shapes import GEMD, TABLE, Field, StrSet, SHAPES


class Member:
    """Stands for a member of an arbitrary enumeration."""


UNIVERSE.add(Member)
TABLE[Member] = dict(matches=StrSet('matches'), synonyms=StrSet('synonyms'), _value_=Field(str))


def folded(interp, v):
    """The text as compared: case-folded and stripped."""
    low = interp.call(str.lower, [v])
    return interp.ctx.lift(interp.call(interp.getattr(low, 'strip'), []))


class Enumeration:
    """An arbitrary enumeration satisfying the invariant."""

    def __init__(self, ctx, interp, hint='members'):
        self.ctx, self.interp = ctx, interp
        self.v = ctx.obj(list, hint)
        self.n, self.arr = ctx.seq_terms(interp.seq_content(self.v))
        i = z3.Int('i!m')
        member = z3.Implies(z3.And(0 <= i, i < self.n),
                            z3.And(clsof(self.arr[i]) == UNIVERSE.cid(Member),
                                   Val.is_ref(self.arr[i]), Val.a(self.arr[i]) > 0))
        ctx.assume(z3.ForAll([i], member, patterns=[self.arr[i]]))
        ctx.element_lemmas.append((i, member, None))
        shape = Members()
        ctx.list_shapes[self.v.t.get_id()] = shape

    def at(self, i):
        """Member i (with its set of recognised texts), for an index term."""
        self.interp.instantiate_lemmas(self.arr, i)
        t = z3.simplify(self.arr[i])
        self.ctx.narrow(t, [Member])
        return SV(t)

    def dom(self, m):
        return self.ctx.set_term(self.interp.set_content_of(self.interp.getattr(m, 'matches')))

    def index(self, hint='i'):
        i = self.ctx.fresh(I, hint)
        self.ctx.assume(z3.And(0 <= i, i < self.n))
        self.ctx.witnesses.append((self.arr, i))
        return i


class Members:
    elems = [Member]

    def elem_facts(self, ctx, v, el):
        if isinstance(el, SV) and ctx.ctor(el.t) is None:
            ctx.narrow(el.t, [Member])

    def content_facts(self, ctx, v, n, arr):
        pass


SOME = [str, int, type(None), list, Origin, SampleType]
FROM = BaseEnumeration.from_str.__func__
NEW = BaseEnumeration.__dict__.get('_new_member_') or BaseEnumeration.__dict__['__new__']


@unit('C16', 'from_str resolves a text to the one member recognising it',
      covers=['found', 'none', 'refused'])
def u_from(ctx, interp):
    en = Enumeration(ctx, interp)
    val = ctx.any_value('val', [str])
    exc = bool(ctx.choose(2))
    kw = {'exception': exc} if exc or ctx.choose(2) else {}
    i = en.index() if ctx.branch(en.n > 0) else None
    kind, r = outcome(lambda: interp.call(FROM, [en.v, val], kw))
    key = folded(interp, val)
    hit = en.dom(en.at(i))[key] if i is not None else z3.BoolVal(False)
    if kind == 'raise':
        ctx.cover('refused')
        ctx.prove('an error only where one is asked for', exc)
        ctx.prove('an error only for a text no member recognises', z3.Not(hit))
        return
    if r is None:
        ctx.cover('none')
        ctx.prove('an unrecognised text is an error where one is asked for', not exc)
        ctx.prove('nothing only for a text no member recognises', z3.Not(hit))
        return
    ctx.cover('found')
    ctx.narrow(r.t, [Member])
    ctx.prove('the member recognises the text', en.dom(r)[key])
    # the invariant: no text is recognised by two members
    if i is not None:
        m = en.at(i)
        ctx.assume(z3.Implies(z3.And(en.dom(m)[key], en.dom(r)[key]), m.t == r.t))
        ctx.prove('it is the only member that does', z3.Implies(hit, m.t == r.t))


@unit('C16', 'from_str without a text', covers=['none', 'refused'])
def u_none(ctx, interp):
    en = Enumeration(ctx, interp)
    val = ctx.any_value('val', [c for c in UNIVERSE.classes if not issubclass(c, str)])
    exc = bool(ctx.choose(2))
    kind, r = outcome(lambda: interp.call(FROM, [en.v, val], {'exception': exc}))
    if kind == 'ret':
        ctx.cover('none')
        ctx.prove('only None is no text', z3.Or(Val.is_none(ctx.lift(val)), en.n == 0))
        ctx.prove('which is no member', r is None)
        ctx.prove('and an error where one is asked for', not exc)
    else:
        ctx.cover('refused')
        ctx.prove('None is an error only where one is asked for',
                  z3.Not(Val.is_none(ctx.lift(val))) if not exc else True)


@unit('C16', 'spellings resolve alike', covers=['found', 'none'])
def u_spell(ctx, interp):
    en = Enumeration(ctx, interp)
    a, b = ctx.any_value('a', [str]), ctx.any_value('b', [str])
    ctx.assume(folded(interp, a) == folded(interp, b))
    r1 = interp.call(FROM, [en.v, a])
    r2 = interp.call(FROM, [en.v, b])
    ctx.cover('none' if r1 is None else 'found')
    ctx.prove('the answer depends on the folded text alone',
              ctx.lift(r1) == ctx.lift(r2))


@unit('C16', 'a text of another kind of member', covers=['found', 'none'])
def u_missing(ctx, interp):
    en = Enumeration(ctx, interp)
    val = ctx.any_value('val', SOME)
    f = BaseEnumeration._missing_.__func__
    text = interp.decide(interp.isinstance_(val, str))
    if not text:
        ctx.cover('none')
        ctx.prove('anything but a text is no member', interp.call(f, [Bound(en), val]) is None)
        return
    r = interp.call(f, [Bound(en), val])
    ctx.cover('found')
    ctx.prove('looking up a value is from_str',
              ctx.lift(r) == ctx.lift(interp.call(FROM, [en.v, val])))


def Bound(en):
    """The enumeration as the receiver of its class methods."""
    return SMock('enumeration', {
        'from_str': lambda interp, *a, **k: interp.call(FROM, [en.v] + list(a), k)})


@unit('C16', 'a new member recognises its names and nothing another member recognises',
      covers=['made', 'refused'], note="definitions with up to two synonyms")
def u_new(ctx, interp):
    en = Enumeration(ctx, interp)
    vals = [ctx.any_value('name', [str, int]) for _ in range(1 + ctx.choose(3))]
    made = []

    def new(interp, args, kwargs):
        m = ctx.alloc(Member)
        made.append(args)
        return m
    ctx.func_contracts[str.__new__] = new
    i = en.index() if ctx.branch(en.n > 0) else None
    kind, r = outcome(lambda: interp.call(NEW, [Bound(en)] + vals))
    texts = [interp.decide(interp.isinstance_(v, str)) for v in vals]
    if kind == 'raise':
        ctx.cover('refused')
        return
    ctx.cover('made')
    ctx.prove('every name is a text', all(texts))
    if not all(texts):
        return
    dom = en.dom(r)
    keys = [folded(interp, v) for v in vals]
    for key in keys:
        ctx.prove('every name is recognised', dom[key])
        if i is not None:
            ctx.prove('no name of another member is', z3.Not(en.dom(en.at(i))[key]))
    k = ctx.fresh(Val, 'k')
    ctx.prove('nothing else is', z3.Implies(dom[k], z3.Or([k == key for key in keys])))
    ctx.prove('its text is its value', ctx.lift(interp.getattr(r, '_value_')) == ctx.lift(vals[0]))





@unit('C16', "every member reads back from its own texts", shapes=False)
def u_own(ctx, interp):
    for cls in (Origin, SampleType):
        for m in cls:
            for s in sorted({m.value, m.name and str(m)} | set(m.synonyms)):
                r = interp.call(cls.from_str, [s])
                ctx.prove(f'{cls.__name__}: {s!r} is {m.name}', r is m)
            for o in cls:
                ctx.prove('no text is recognised by two members',
                          o is m or not (set(m.matches) & set(o.matches)))


def field_unit(cls, attr, enum):
    @unit('C16', f'{cls.__name__}.{attr} = ...', covers=['stored', 'refused'])
    def u(ctx, interp):
        o = ctx.obj(cls)
        before = interp.getattr(o, attr)
        val = ctx.any_value('val')
        kind, r = outcome(lambda: interp.setattr(o, attr, val))
        after = interp.getattr(o, attr)
        if kind == 'raise':
            ctx.cover('refused')
            ctx.prove('a refused value is not stored', interp.is_(before, after))
            return
        ctx.cover('stored')
        ctx.prove('a text is needed', interp.isinstance_(val, str))
        ctx.prove('a member is stored', interp.isinstance_(after, enum))
        key = folded(interp, val)
        ctx.prove('it recognises the text', z3.Or([
            z3.And(ctx.lift(after) == ctx.lift(m),
                   z3.Or([key == Val.str(ctx.strlit(t)) for t in sorted(m.matches)]))
            for m in enum]))


for _c in (Property, Condition, Parameter):
    field_unit(_c, 'origin', Origin)
field_unit(MaterialRun, 'sample_type', SampleType)

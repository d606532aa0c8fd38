"""Texts as sequences of characters, for the few functions that take them apart."""
import sys
from functools import lru_cache

import z3

from pyvc.ctx import Unsupported
from pyvc.values import *  # noqa: F401,F403
from pyvc.values import I, Str, Val
from pyvc.models import LOWER

TXT = z3.Function('TEXT_OF', Str, z3.StringSort())
LOW = z3.Function('TEXT_LOWER', z3.StringSort(), z3.StringSort())


@lru_cache(None)
def lowers_to(c):
    """(characters whose lower case is c, characters whose lower case starts with c)."""
    only = [chr(i) for i in range(sys.maxunicode + 1) if chr(i).lower() == c]
    start = [chr(i) for i in range(sys.maxunicode + 1) if chr(i).lower().startswith(c)]
    assert all(not x.lower()[1:2].isascii() or len(x.lower()) == 1 for x in start)
    return only, start


def chars(cs):
    return z3.Union([z3.Re(c) for c in cs]) if len(cs) > 1 else z3.Re(cs[0])


def lower_prefix(s, p):
    """The lower case of s starts with the (ASCII, lower-case) text p."""
    anything = z3.Star(z3.AllChar(z3.ReSort(z3.StringSort())))
    parts = [chars(lowers_to(c)[0]) for c in p[:-1]] + [chars(lowers_to(p[-1])[1]), anything]
    return z3.InRe(s, z3.Concat(parts))


def hook(ctx, name, args, terms, r):
    t = [content(ctx, x) for x in terms]
    if name == 'concat':
        ctx.assume(TXT(r) == z3.Concat(t[0], t[1]))
    elif name == 'lower':
        ctx.assume(TXT(r) == LOW(t[0]))
    elif name == 'startswith' and len(args) == 1 and isinstance(args[0], str):
        if terms[0].decl().eq(LOWER):
            ctx.assume(r == lower_prefix(content(ctx, terms[0].arg(0)), args[0]))
        else:
            ctx.assume(r == z3.PrefixOf(z3.StringVal(args[0]), t[0]))
    elif name == '__getitem__' and isinstance(args[0], slice):
        a = args[0]
        if a.step is not None or a.stop is not None or not isinstance(a.start, int) or a.start < 0:
            raise Unsupported("this slice of a text")
        n = z3.Length(t[0])
        ctx.assume(TXT(r) == z3.If(n <= a.start, z3.StringVal(''),
                                   z3.SubString(t[0], a.start, n - a.start)))
    else:
        raise Unsupported(f"the characters of str.{name}")


def content(ctx, s):
    """The characters of a text (known for a literal)."""
    key = ('text', s.get_id())
    if key not in ctx.memo:
        ctx.memo[key] = s
        lit = ctx.unlift(Val.str(s))
        if isinstance(lit, str):
            ctx.assume(TXT(s) == z3.StringVal(lit))
    return TXT(s)

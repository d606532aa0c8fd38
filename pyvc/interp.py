"""Interpreter for the real Python source over symbolic state."""
import ast
import builtins
import collections.abc
import contextlib
import enum
import functools
import importlib
import inspect
import logging
import sys
import types

import z3

from .ctx import *  # noqa: F401,F403
from .ctx import MISSING, Ctx, Poison, PathAbort, PyRaise, Unsupported
from .values import *  # noqa: F401,F403
from .values import CONSTS, UNIVERSE


class ReturnEx(Exception):
    def __init__(self, value):
        self.value = value


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class Env:
    def __init__(self, ctx, parent=None, globals_=None, cells=None, fn=None, modname=None):
        self.vars = {}
        self.parent = parent
        self.globals_ = globals_ if globals_ is not None else (parent.globals_ if parent else {})
        self.modname = modname or (parent.modname if parent else None)
        self.cells = cells or {}
        self.fn = fn if fn is not None else (parent.fn if parent else None)
        self.nonlocals = set()
        self.globalnames = set()
        self.yield_hook = None
        self.exc = None
        self.self_ = None
        ctx.envs.append(self)


# ------------------------------------------------------------------ source access
_files = {}


def _file_index(path):
    if path not in _files:
        with open(path) as f:
            tree = ast.parse(f.read(), path)
        idx = {}
        for node in ast.walk(tree):
            if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                line = min([node.lineno] + [d.lineno for d in node.decorator_list])
                idx.setdefault((node.name, line), []).append(node)
            elif isinstance(node, ast.Lambda):
                idx.setdefault(('<lambda>', node.lineno), []).append(node)
        _files[path] = idx
    return _files[path]


def function_ast(fn):
    code = fn.__code__
    nodes = _file_index(code.co_filename).get((code.co_name, code.co_firstlineno), [])
    if len(nodes) != 1:
        raise Unsupported(f"cannot locate the source of {fn.__qualname__}")
    return nodes[0]


def is_repo_function(fn):
    mod = getattr(fn, '__module__', '') or ''
    return mod.split('.')[0] in ('gemd', 'pyvc_selftest') or \
        getattr(fn, '__pyvc_interpret__', False)


def is_contextmanager(fn):
    return isinstance(fn, types.FunctionType) and hasattr(fn, '__wrapped__') and \
        fn.__code__.co_filename == contextlib.__file__


from .models import Models  # noqa: E402  (needs the names above)


class Interp(Models):
    """Executes repository functions on symbolic values."""

    max_depth = 60

    def __init__(self, ctx):
        self.ctx = ctx
        self.depth = 0
        self.active = []

    # ------------------------------------------------------------ raising
    def raise_(self, cls, *args):
        raise PyRaise(SExc(cls, args))

    # ------------------------------------------------------------ calls
    def call(self, f, args=(), kwargs=None):
        kwargs = kwargs or {}
        args = list(args)
        ctx = self.ctx
        f = self.force(f)
        if isinstance(f, BoundMethod):
            return self.call(f.func, [f.self_] + args, kwargs)
        if isinstance(f, BuiltinMethod):
            return self.call_builtin_method(f, args, kwargs)
        if isinstance(f, Closure):
            h = ctx.func_contracts.get(f)
            if h:
                return h(self, args, kwargs)
            return self.call_closure(f, args, kwargs)
        if isinstance(f, SMock):
            return f.methods['__call__'](self, *args, **kwargs)
        if isinstance(f, types.MethodType):
            return self.call_host_method(f, args, kwargs)
        if isinstance(f, SV):
            h = ctx.func_contracts.get('symbolic-callable')
            if h:
                return h(self, [f] + args, kwargs)
            raise Unsupported("call of a symbolic callable")
        try:
            h = ctx.func_contracts.get(f)
        except TypeError:
            h = None
        if h:
            ctx.stats['contracts_used'].add(getattr(f, '__qualname__', str(f)))
            return h(self, args, kwargs)
        m = self.builtin_models.get(id(f))
        if m:
            return m(self, *args, **kwargs)
        if isinstance(f, functools._lru_cache_wrapper):
            return self.call(f.__wrapped__, args, kwargs)
        if isinstance(f, functools.partial):
            return self.call(f.func, list(f.args) + args, {**f.keywords, **kwargs})
        if isinstance(f, type):
            return self.instantiate(f, args, kwargs)
        if is_contextmanager(f):
            return SCtxMgr(f.__wrapped__, args, kwargs)
        if isinstance(f, types.FunctionType):
            if is_repo_function(f):
                return self.call_function(f, args, kwargs)
            if hasattr(f, '__wrapped__') and is_repo_function(f.__wrapped__):
                return self.call(f.__wrapped__, args, kwargs)
        if isinstance(f, (types.MethodDescriptorType, types.WrapperDescriptorType)):
            # str.lower(x), list.__init__(self, ...)
            return self.call_builtin_method(
                BuiltinMethod(args[0], f.__objclass__.__name__, f.__name__), args[1:], kwargs)
        return self.native(f, args, kwargs)

    NATIVE_FORBIDDEN = ('os', 'shutil', 'subprocess', 'uuid', 'socket', 'tempfile', 'io')

    def native(self, f, args, kwargs):
        if not all(concrete(a) for a in args) or not all(concrete(a) for a in kwargs.values()):
            raise Unsupported(f"call of {getattr(f, '__qualname__', f)} with symbolic arguments")
        mod = (getattr(f, '__module__', None) or '').split('.')[0]
        if mod in self.NATIVE_FORBIDDEN:
            raise Unsupported(f"native call of {f}")
        self.ctx.stats['natives'].add(f"{mod}.{getattr(f, '__qualname__', f)}")
        try:
            r = f(*[to_host(a) for a in args], **{k: to_host(v) for k, v in kwargs.items()})
        except Exception as e:  # noqa: BLE001
            raise PyRaise(SExc(type(e), e.args))
        return self.wrap_result(r)

    def wrap_result(self, r):
        if type(r) is list:
            return self.ctx.new_list([self.wrap_result(x) for x in r])
        if type(r) is tuple:
            return STuple([self.wrap_result(x) for x in r])
        if type(r) is dict:
            return self.ctx.new_dict([(self.wrap_result(k), self.wrap_result(v))
                                      for k, v in r.items()])
        if type(r) is set:
            s = self.ctx.alloc(set)
            self.ctx.set_content(s, CSet(spine=tuple(r)))
            return s
        return r

    def call_host_method(self, f, args, kwargs):
        self_, func = f.__self__, f.__func__
        if isinstance(self_, logging.Logger):
            self.ctx.events.append(('log', func.__name__))
            return None
        h = self.ctx.func_contracts.get(func)
        if h:
            self.ctx.stats['contracts_used'].add(getattr(func, '__qualname__', str(func)))
            return h(self, [self_] + args, kwargs)
        if isinstance(func, functools._lru_cache_wrapper):
            return self.call(func.__wrapped__, [self_] + args, kwargs)
        if is_repo_function(func):
            return self.call(func, [self_] + args, kwargs)
        return self.native(f, args, kwargs)

    def call_function(self, fn, args, kwargs):
        node = function_ast(fn)
        cells = {}
        if fn.__closure__:
            for n, c in zip(fn.__code__.co_freevars, fn.__closure__):
                try:
                    cells[n] = c.cell_contents
                except ValueError:
                    pass
        self.ctx.stats['interpreted'].add(f"{fn.__module__}.{fn.__qualname__}")
        env = Env(self.ctx, globals_=fn.__globals__, cells=cells, fn=fn, modname=fn.__module__)
        self.bind(node.args, args, kwargs, env, fn.__defaults__ or (), fn.__kwdefaults__ or {},
                  fn.__qualname__)
        return self.run_or_recur(fn, node, env)

    def run_or_recur(self, f, node, env):
        """A call of a function from within its own body is replaced by its contract, if given."""
        ctx = self.ctx
        if ctx.recursion is not None:
            if isinstance(f, Closure):
                ctx.memo.setdefault(('closures',), []).append(f)
            if any(n is node for n in self.active):
                r = ctx.recursion(self, f, env.vars)
                if r is not NotImplemented:
                    ctx.stats['contracts_used'].add(getattr(f, '__qualname__', str(f)))
                    return r
            self.active.append(node)
            try:
                return self.run_body(node, env)
            finally:
                self.active.pop()
        return self.run_body(node, env)

    def call_closure(self, c, args, kwargs):
        env = Env(self.ctx, parent=c.env)
        self.bind(c.node.args, args, kwargs, env, c.defaults, c.kwdefaults, c.name)
        return self.run_or_recur(c, c.node, env)

    def run_body(self, node, env):
        self.depth += 1
        if self.depth > self.max_depth:
            raise Unsupported("recursion too deep (no contract for a recursive function)")
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, env)
            for n in ast.walk(node):
                if isinstance(n, (ast.Yield, ast.YieldFrom)) and env.yield_hook is None:
                    if self.owns(node, n):
                        raise Unsupported("generator function")
            try:
                self.exec_block(node.body, env)
            except ReturnEx as r:
                return r.value
            return None
        finally:
            self.depth -= 1

    @staticmethod
    def owns(fnode, target):
        """Whether target occurs in fnode outside nested functions."""
        stack = list(fnode.body)
        while stack:
            n = stack.pop()
            if n is target:
                return True
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            stack.extend(ast.iter_child_nodes(n))
        return False

    def bind(self, a, args, kwargs, env, defaults, kwdefaults, name):
        kwargs = dict(kwargs)
        pos = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        for n, v in zip(pos, args):
            vals[n] = v
        extra = args[len(pos):]
        if extra and a.vararg is None:
            self.raise_(TypeError, f"{name}: too many positional arguments")
        if a.vararg is not None:
            if len(extra) == 1 and isinstance(extra[0], StarArgs):
                vals[a.vararg.arg] = extra[0].value
            else:
                vals[a.vararg.arg] = STuple(extra)
        kwonly = [x.arg for x in a.kwonlyargs]
        names = [x.arg for x in a.args] + kwonly
        rest = {}
        for k, v in kwargs.items():
            if k in names:
                if k in vals:
                    self.raise_(TypeError, f"{name}: multiple values for {k}")
                vals[k] = v
            elif a.kwarg is not None:
                rest[k] = v
            else:
                self.raise_(TypeError, f"{name}: unexpected keyword {k}")
        if a.kwarg is not None:
            vals[a.kwarg.arg] = self.ctx.new_dict(list(rest.items()))
        dflt = dict(zip(pos[len(pos) - len(defaults):], defaults))
        for n in pos:
            if n not in vals:
                if n in dflt:
                    vals[n] = self.host_in(dflt[n])
                else:
                    self.raise_(TypeError, f"{name}: missing argument {n}")
        for n in kwonly:
            if n not in vals:
                if n in kwdefaults:
                    vals[n] = self.host_in(kwdefaults[n])
                else:
                    self.raise_(TypeError, f"{name}: missing keyword argument {n}")
        env.vars.update(vals)
        if pos:
            env.self_ = vals.get(pos[0])

    def host_in(self, v):
        return STuple(v) if type(v) is tuple else v

    # ------------------------------------------------------------ instantiation
    def instantiate(self, cls, args, kwargs):
        ctx = self.ctx
        if issubclass(cls, BaseException):
            return SExc(cls, tuple(args))
        if issubclass(cls, enum.Enum):
            return self.enum_call(cls, args, kwargs)
        mod = cls.__module__.split('.')[0]
        if mod not in ('gemd', 'pyvc_selftest'):
            return self.native(cls, args, kwargs)
        if inspect.isabstract(cls):
            self.raise_(TypeError, f"abstract class {cls.__name__}")
        obj = ctx.alloc(cls)
        if issubclass(cls, list):
            ctx.set_content(obj, CSeq(spine=()))
        elif issubclass(cls, dict):
            ctx.set_content(obj, CMap(spine=()))
        elif issubclass(cls, (set, tuple, str, int, float)):
            raise Unsupported(f"instantiation of {cls}")
        if cls.__new__ is not object.__new__ and not issubclass(cls, (list, dict)):
            raise Unsupported(f"{cls} overrides __new__")
        init = inspect.getattr_static(cls, '__init__')
        if isinstance(init, types.FunctionType):
            self.call(init, [obj] + args, kwargs)
        elif args or kwargs:
            if issubclass(cls, (list, dict)):
                self.call(init, [obj] + args, kwargs)
            else:
                self.raise_(TypeError, "takes no arguments")
        return obj

    def enum_call(self, cls, args, kwargs):
        (v,) = args
        if concrete(v):
            try:
                return cls(to_host(v))
            except Exception as e:  # noqa: BLE001
                raise PyRaise(SExc(type(e), e.args))
        # value lookup, then _missing_
        for m in cls:
            if self.decide(self.eq(m, v)):
                return m
        missing = getattr(cls, '_missing_')
        if is_repo_function(missing.__func__):
            r = self.call(missing, [v])
            if self.decide(self.isinstance_(r, cls)):
                return r
        self.raise_(ValueError, "not a member")

    # ------------------------------------------------------------ attributes
    def static(self, cls, name):
        return inspect.getattr_static(cls, name, MISSING)

    def has_field(self, v, cls, name):
        """Whether an instance of cls (this value) has an instance attribute of that name."""
        ctx = self.ctx
        addr = ctx.addr(v)
        for a, _ in ctx.fields.get(name, []):
            if ctx.same_addr(a, addr) is not False:
                return True
        if isinstance(addr, int) and addr < 0:
            return False
        return ctx.shapes is not None and ctx.shapes.field(cls, name) is not None

    def getattr(self, v, name):
        ctx = self.ctx
        v = self.force(v)
        if isinstance(v, SuperProxy):
            return self.super_getattr(v, name)
        if isinstance(v, SExc):
            if name == 'args':
                return STuple(v.args)
            raise Unsupported(f"attribute {name} of an exception")
        if isinstance(v, SMock):
            if name in v.methods:
                m = v.methods[name]
                return m if not callable(m) else SMock(f"{v.name}.{name}", {'__call__': m})
            raise Unsupported(f"{v.name}.{name}")
        if isinstance(v, (Closure, BoundMethod)):
            if isinstance(v, Closure) and name in v.attrs:
                return v.attrs[name]
            raise Unsupported(f"function attribute {name}")
        if isinstance(v, STuple):
            return BuiltinMethod(v, 'tuple', name)
        if not isinstance(v, SV):
            return self.host_getattr(v, name)
        if name == '__class__':
            return ctx.resolve_class(v)
        if name == '__dict__':
            return self.vars_dict(v)
        if name == '__hash__':
            cls = ctx.candidates(v)
            return self.pick(v, lambda c: c.__hash__ is None, lambda: None,
                             lambda: BuiltinMethod(v, 'object', '__hash__'))
        if name == '__getattribute__':
            return BuiltinMethod(v, 'object', '__getattribute__')
        groups = {}
        cands = ctx.candidates(v)
        for c in cands:
            s = self.static(c, name)
            if isinstance(s, property) or (hasattr(type(s), '__set__')
                                           and hasattr(type(s), '__get__')):
                key = ('data', id(s))
            elif c not in BUILTIN_SET and self.has_field(v, c, name):
                key = ('field', 0)
            elif s is MISSING:
                key = ('missing', 0)
            else:
                h = ctx.func_contracts.get(s) if isinstance(s, types.FunctionType) else None
                # functions under one contract need no case split
                key = ('cls', id(h if h is not None else s),
                       c if isinstance(s, classmethod) else 0)
            groups.setdefault(key, [s, set()])[1].add(c)
        keys = list(groups)
        while len(keys) > 1:
            k = keys[0]
            members = groups[k][1]
            if self.decide(ctx.type_test(v, lambda c: c in members)):
                keys = [k]
            else:
                keys = keys[1:]
        key = keys[0]
        s, members = groups[key]
        if key[0] == 'field':
            r = ctx.read_field(v, name)
            if r is MISSING:
                self.raise_(AttributeError, name)
            return r
        if key[0] == 'missing':
            self.raise_(AttributeError, name)
        return self.bind_static(s, v, name)

    def pick(self, v, pred, then, else_):
        if self.decide(self.ctx.type_test(v, pred)):
            return then()
        return else_()

    def bind_static(self, s, v, name):
        if isinstance(s, property):
            if s.fget is None:
                self.raise_(AttributeError, name)
            return self.call(s.fget, [v])
        if isinstance(s, staticmethod):
            return s.__func__
        if isinstance(s, classmethod):
            return BoundMethod(s.__func__, self.ctx.resolve_class(v))
        if isinstance(s, (types.FunctionType, functools._lru_cache_wrapper)):
            return BoundMethod(s, v)
        if isinstance(s, (types.MethodDescriptorType, types.WrapperDescriptorType)):
            return BuiltinMethod(v, s.__objclass__.__name__, s.__name__)
        if isinstance(s, types.GetSetDescriptorType):
            raise Unsupported(f"descriptor {name}")
        return self.host_in(s)

    def super_getattr(self, sp, name):
        v = sp.self_
        cls = v if isinstance(v, type) else self.ctx.resolve_class(v)
        mro = cls.__mro__
        i = mro.index(sp.cls)
        for c in mro[i + 1:]:
            if name in c.__dict__:
                s = c.__dict__[name]
                if isinstance(v, type):
                    if isinstance(s, classmethod):
                        return BoundMethod(s.__func__, v)
                    if isinstance(s, staticmethod):
                        return s.__func__
                    return s
                if isinstance(s, classmethod):
                    return BoundMethod(s.__func__, cls)
                return self.bind_static(s, v, name)
        self.raise_(AttributeError, name)

    def host_getattr(self, v, name):
        if isinstance(v, types.ModuleType):
            key = (v.__name__, name)
            if key in self.ctx.globals_:
                return self.ctx.globals_[key]
        if isinstance(v, str) and not isinstance(v, enum.Enum) or isinstance(v, (int, float)) \
                and not isinstance(v, enum.Enum):
            if hasattr(type(v), name):
                return BuiltinMethod(v, type(v).__name__, name)
        if isinstance(v, enum.Enum) and isinstance(v, str) and name in (
                'lower', 'upper', 'strip', 'startswith', 'endswith'):
            return BuiltinMethod(v, 'str', name)
        for b in (list, dict, set, frozenset, tuple):
            if isinstance(v, b) and hasattr(b, name):
                return BuiltinMethod(v, b.__name__, name)
        if isinstance(v, enum.Enum) and isinstance(inspect.getattr_static(type(v), name, None),
                                                   types.FunctionType):
            return BoundMethod(inspect.getattr_static(type(v), name), v)
        try:
            return self.host_in(getattr(v, name))
        except AttributeError as e:
            self.raise_(AttributeError, *e.args)

    def setattr(self, v, name, val):
        ctx = self.ctx
        if isinstance(v, types.ModuleType):
            ctx.globals_[(v.__name__, name)] = val
            return
        if isinstance(v, Closure):
            v.attrs[name] = val
            return
        if not isinstance(v, SV):
            raise Unsupported(f"assignment to attribute {name} of {type(v)}")
        groups = {}
        for c in ctx.candidates(v):
            s = self.static(c, name)
            key = id(s) if isinstance(s, property) else (
                'builtin' if c in BUILTIN_SET else 'field')
            groups.setdefault(key, [s, set()])[1].add(c)
        keys = list(groups)
        while len(keys) > 1:
            members = groups[keys[0]][1]
            if self.decide(ctx.type_test(v, lambda c: c in members)):
                keys = [keys[0]]
            else:
                keys = keys[1:]
        s = groups[keys[0]][0]
        if keys[0] == 'builtin':
            self.raise_(AttributeError, name)
        if isinstance(s, property):
            if s.fset is None:
                self.raise_(AttributeError, name)
            self.call(s.fset, [v, val])
        else:
            ctx.write_field(v, name, val)

    def vars_dict(self, v):
        """vars(obj): only for reading; complete by the class's declared fields."""
        ctx = self.ctx
        cls = ctx.resolve_class(v)
        addr = ctx.addr(v)
        names = []
        if not (isinstance(addr, int) and addr < 0):
            names = list(ctx.shapes.all_fields(cls) or [])
            if not names and not ctx.shapes.known(cls):
                raise Unsupported(f"fields of {cls} are not declared")
        for f, log in ctx.fields.items():
            for a, _ in log:
                if ctx.same_addr(a, addr) is True and f not in names:
                    names.append(f)
        return ctx.new_dict([(f, ctx.read_field(v, f)) for f in names])

    # ------------------------------------------------------------ names
    def load(self, name, env):
        e = env
        first = True
        while e is not None:
            if name in e.globalnames:
                break
            if name in e.vars:
                v = e.vars[name]
                if isinstance(v, Poison):
                    raise Unsupported(f"variable {name} after a loop: {v.why}")
                return v
            if name in e.cells:
                return self.host_in(e.cells[name])
            e = e.parent
            first = False
        key = (env.modname, name)
        if key in self.ctx.globals_:
            return self.ctx.globals_[key]
        if name in env.globals_:
            return self.host_in(env.globals_[name])
        if hasattr(builtins, name):
            return getattr(builtins, name)
        self.raise_(NameError, name)

    def store(self, name, val, env):
        if name in env.globalnames:
            self.ctx.globals_[(env.modname, name)] = val
            return
        if name in env.nonlocals:
            e = env.parent
            while e is not None:
                if name in e.vars:
                    e.vars[name] = val
                    return
                e = e.parent
            raise Unsupported(f"nonlocal {name}")
        env.vars[name] = val

    def assign(self, target, val, env):
        if isinstance(target, ast.Name):
            self.store(target.id, val, env)
        elif isinstance(target, (ast.Tuple, ast.List)):
            vals = self.unpack(val, len(target.elts))
            for t, x in zip(target.elts, vals):
                self.assign(t, x, env)
        elif isinstance(target, ast.Attribute):
            self.setattr(self.eval(target.value, env), target.attr, val)
        elif isinstance(target, ast.Subscript):
            self.setitem(self.eval(target.value, env), self.eval_index(target.slice, env), val)
        else:
            raise Unsupported(f"assignment target {type(target).__name__}")

    def unpack(self, val, n):
        seq = self.iterate(val)
        if seq[0] == 'spine':
            if len(seq[1]) != n:
                self.raise_(ValueError, "unpack")
            return seq[1]
        _, ln, elem = seq[:3]
        if not self.ctx.branch(ln == n):
            self.raise_(ValueError, "unpack")
        return [elem(z3.IntVal(i)) for i in range(n)]

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, env):
        for s in stmts:
            self.exec(s, env)

    def exec(self, s, env):
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        m(s, env)

    def x_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, env)

    def x_Pass(self, s, env):
        pass

    def x_Assign(self, s, env):
        v = self.eval(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, env), env)

    def x_AugAssign(self, s, env):
        if isinstance(s.target, ast.Name):
            cur = self.load(s.target.id, env)
            self.store(s.target.id, self.inplace(s.op, cur, self.eval(s.value, env)), env)
        elif isinstance(s.target, ast.Attribute):
            o = self.eval(s.target.value, env)
            cur = self.getattr(o, s.target.attr)
            self.setattr(o, s.target.attr, self.inplace(s.op, cur, self.eval(s.value, env)))
        elif isinstance(s.target, ast.Subscript):
            o = self.eval(s.target.value, env)
            i = self.eval_index(s.target.slice, env)
            cur = self.getitem(o, i)
            self.setitem(o, i, self.inplace(s.op, cur, self.eval(s.value, env)))
        else:
            raise Unsupported("augmented assignment")

    def x_Return(self, s, env):
        raise ReturnEx(self.eval(s.value, env) if s.value is not None else None)

    def x_If(self, s, env):
        if self.truth_decide(self.eval(s.test, env)):
            self.exec_block(s.body, env)
        else:
            self.exec_block(s.orelse, env)

    def x_Break(self, s, env):
        raise BreakEx()

    def x_Continue(self, s, env):
        raise ContinueEx()

    def x_Global(self, s, env):
        env.globalnames.update(s.names)

    def x_Nonlocal(self, s, env):
        env.nonlocals.update(s.names)

    def x_Import(self, s, env):
        for a in s.names:
            m = importlib.import_module(a.name)
            self.store(a.asname or a.name.split('.')[0],
                       m if a.asname else sys.modules[a.name.split('.')[0]], env)

    def x_ImportFrom(self, s, env):
        m = importlib.import_module('.' * s.level + (s.module or ''),
                                    env.globals_.get('__package__'))
        for a in s.names:
            key = (m.__name__, a.name)
            if key in self.ctx.globals_:
                v = self.ctx.globals_[key]
            elif hasattr(m, a.name):
                v = getattr(m, a.name)
            else:
                v = importlib.import_module(m.__name__ + '.' + a.name)
            self.store(a.asname or a.name, self.host_in(v), env)

    def x_FunctionDef(self, s, env):
        c = self.make_closure(s, s.name, env)
        for d in reversed(s.decorator_list):
            c = self.call(self.eval(d, env), [c])
        self.store(s.name, c, env)

    def make_closure(self, node, name, env):
        defaults = [self.eval(d, env) for d in node.args.defaults]
        kwd = {a.arg: self.eval(d, env)
               for a, d in zip(node.args.kwonlyargs, node.args.kw_defaults) if d is not None}
        return Closure(node, env, name, defaults, kwd)

    def x_Raise(self, s, env):
        if s.exc is None:
            e = env
            while e is not None and e.exc is None:
                e = e.parent
            if e is None:
                self.raise_(RuntimeError, "no active exception")
            raise PyRaise(e.exc)
        v = self.eval(s.exc, env)
        if isinstance(v, type) and issubclass(v, BaseException):
            v = SExc(v)
        if not isinstance(v, SExc):
            raise Unsupported("raise of a symbolic value")
        raise PyRaise(v)

    def x_Assert(self, s, env):
        if not self.truth_decide(self.eval(s.test, env)):
            self.raise_(AssertionError)

    def x_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.eval(t.value, env), self.eval_index(t.slice, env))
            elif isinstance(t, ast.Attribute):
                raise Unsupported("del of an attribute")
            else:
                raise Unsupported("del")

    def exc_matches(self, exc, typ):
        if isinstance(typ, STuple):
            return any(self.exc_matches(exc, t) for t in typ.items)
        return issubclass(exc.cls, typ)

    def x_Try(self, s, env):
        def core():
            try:
                self.exec_block(s.body, env)
            except PyRaise as e:
                for h in s.handlers:
                    typ = self.eval(h.type, env) if h.type is not None else BaseException
                    if self.exc_matches(e.exc, typ):
                        if h.name:
                            self.store(h.name, e.exc, env)
                        prev, env.exc = env.exc, e.exc
                        try:
                            self.exec_block(h.body, env)
                        finally:
                            env.exc = prev
                        return
                raise
            else:
                self.exec_block(s.orelse, env)
        try:
            core()
        except (PyRaise, ReturnEx, BreakEx, ContinueEx) as pending:
            self.exec_block(s.finalbody, env)
            raise pending
        self.exec_block(s.finalbody, env)

    def x_With(self, s, env):
        def level(i):
            if i == len(s.items):
                self.exec_block(s.body, env)
                return
            item = s.items[i]
            mgr = self.eval(item.context_expr, env)

            def body(value):
                if item.optional_vars is not None:
                    self.assign(item.optional_vars, value, env)
                level(i + 1)
            self.with_manager(mgr, body)
        level(0)

    def with_manager(self, mgr, body):
        """Run body(value) inside a context manager."""
        if isinstance(mgr, SCtxMgr):
            self.run_ctxmgr(mgr, body)
            return
        enter = self.getattr(mgr, '__enter__')
        exit_ = self.getattr(mgr, '__exit__')
        value = self.call(enter, [])
        try:
            body(value)
        except PyRaise as e:
            r = self.call(exit_, [e.exc.cls, e.exc, None])
            if self.truth_decide(r):
                return
            raise
        except (ReturnEx, BreakEx, ContinueEx):
            self.call(exit_, [None, None, None])
            raise
        self.call(exit_, [None, None, None])

    def run_ctxmgr(self, mgr, body):
        fn = mgr.fn
        node = function_ast(fn)
        self.ctx.stats['interpreted'].add(f"{fn.__module__}.{fn.__qualname__}")
        env = Env(self.ctx, globals_=fn.__globals__, fn=fn, modname=fn.__module__)
        self.bind(node.args, mgr.args, mgr.kwargs, env, fn.__defaults__ or (),
                  fn.__kwdefaults__ or {}, fn.__qualname__)
        state = dict(entered=False, pending=None)

        def hook(value):
            if state['entered']:
                raise Unsupported("context manager yields twice")
            state['entered'] = True
            try:
                body(value)
            except (ReturnEx, BreakEx, ContinueEx) as e:
                state['pending'] = e
            return None
        env.yield_hook = hook
        try:
            self.exec_block(node.body, env)
        except ReturnEx:
            pass
        if not state['entered']:
            self.raise_(RuntimeError, "generator didn't yield")
        if state['pending'] is not None:
            raise state['pending']

    # ------------------------------------------------------------ loops
    def x_For(self, s, env):
        it = self.eval(s.iter, env)
        seq = self.iterate(it)
        if seq[0] == 'spine':
            items = list(seq[1])
            live = isinstance(it, SV) and self.category(it) == 'seq'
            i = 0
            while i < len(items):
                self.assign(s.target, items[i], env)
                i += 1
                try:
                    self.exec_block(s.body, env)
                except BreakEx:
                    return
                except ContinueEx:
                    pass
                if live:  # a list may change while it is being iterated
                    c = self.seq_content(it)
                    if c.spine is None:
                        raise Unsupported("list made symbolic while iterated")
                    items = list(c.spine)
            self.exec_block(s.orelse, env)
            return
        from . import loops
        loops.for_abstract(self, s, seq, env)

    def x_While(self, s, env):
        from . import loops
        loops.while_loop(self, s, env)

    # ------------------------------------------------------------ expressions
    def eval(self, e, env):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        return self.load(e.id, env)

    def e_Attribute(self, e, env):
        return self.getattr(self.eval(e.value, env), e.attr)

    def e_Tuple(self, e, env):
        return self.star_items(e.elts, env, STuple)

    def star_items(self, elts, env, make):
        items = []
        for x in elts:
            if isinstance(x, ast.Starred):
                seq = self.iterate(self.eval(x.value, env))
                if seq[0] != 'spine':
                    raise Unsupported("star of an unbounded sequence")
                items.extend(seq[1])
            else:
                items.append(self.eval(x, env))
        return make(items)

    def e_List(self, e, env):
        return self.star_items(e.elts, env, self.ctx.new_list)

    def e_Set(self, e, env):
        return self.star_items(e.elts, env, self.make_set)

    def e_Dict(self, e, env):
        d = self.ctx.new_dict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.dict_update(d, self.eval(v, env))
            else:
                self.setitem(d, self.eval(k, env), self.eval(v, env))
        return d

    def e_Call(self, e, env):
        f = None
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            return self.make_super(env)
        f = self.eval(e.func, env)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, env)
                seq = self.iterate(v)
                if seq[0] == 'spine':
                    args.extend(seq[1])
                elif a is e.args[-1] and not args:
                    args.append(StarArgs(v))
                else:
                    raise Unsupported("star-args of an unbounded sequence")
            else:
                args.append(self.eval(a, env))
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, env)
                if isinstance(f, SMock) and '__call_map__' in f.methods and len(e.keywords) == 1:
                    return f.methods['__call_map__'](self, args, d)
                for kk, vv in self.dict_pairs(d):
                    if not isinstance(kk, str):
                        raise Unsupported("** with symbolic keys")
                    kwargs[kk] = vv
            else:
                kwargs[k.arg] = self.eval(k.value, env)
        if len(args) == 1 and isinstance(args[0], StarArgs):
            if not self.accepts_varargs(f):
                raise Unsupported("star-args of an unbounded sequence")
        if f is builtins.super:
            return SuperProxy(args[0], args[1])
        return self.call(f, args, kwargs)

    def accepts_varargs(self, f):
        while isinstance(f, BoundMethod):
            f = f.func
        if isinstance(f, types.MethodType):
            f = f.__func__
        if isinstance(f, types.FunctionType):
            a = function_ast(f).args
            return a.vararg is not None and len(a.args) <= 1
        return False

    def make_super(self, env):
        e = env
        while e is not None:
            if '__class__' in e.cells:
                # the first argument of the method
                top = e
                return SuperProxy(e.cells['__class__'], top.self_)
            e = e.parent
        raise Unsupported("super() outside a method")

    def e_Lambda(self, e, env):
        return self.make_closure(e, '<lambda>', env)

    def e_IfExp(self, e, env):
        if self.truth_decide(self.eval(e.test, env)):
            return self.eval(e.body, env)
        return self.eval(e.orelse, env)

    def e_BoolOp(self, e, env):
        is_and = isinstance(e.op, ast.And)
        for i, x in enumerate(e.values):
            v = self.eval(x, env)
            if i == len(e.values) - 1:
                return v
            t = self.truth_decide(v)
            if is_and and not t or not is_and and t:
                return v
        return v

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            if t is True or t is False:
                return not t
            if isinstance(t, TypeTest):
                return t.negate()
            return self.bool_(z3.Not(Val.b(t.t)))
        if isinstance(e.op, ast.USub):
            return self.arith('-', 0, v)
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported("unary operator")

    OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.Mod: '%', ast.Pow: '**',
           ast.FloorDiv: '//', ast.BitOr: '|', ast.BitAnd: '&', ast.BitXor: '^'}

    def e_BinOp(self, e, env):
        op = self.OPS.get(type(e.op))
        if op is None:
            raise Unsupported("binary operator")
        return self.binop(op, self.eval(e.left, env), self.eval(e.right, env))

    def inplace(self, op, cur, val):
        o = self.OPS.get(type(op))
        name = {'+': '__iadd__', '|': '__ior__', '-': '__isub__', '&': '__iand__'}.get(o)
        if isinstance(cur, SV) and name and not self.is_scalarish(cur):
            return self.call(self.getattr(cur, name), [val])
        return self.binop(o, cur, val)

    def is_scalarish(self, v):
        return all(is_scalar_class(c) for c in self.ctx.candidates(v))

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        result = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, env)
            result = self.compare(op, left, right)
            if i < len(e.ops) - 1:
                if not self.truth_decide(result):
                    return result
            left = right
        return result

    def compare(self, op, a, b):
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            return self.not_(self.eq(a, b))
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return self.not_(self.is_(a, b))
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return self.not_(self.contains(b, a))
        sym = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}[type(op)]
        return self.order(sym, a, b)

    def eval_index(self, e, env):
        if isinstance(e, ast.Slice):
            return slice(*[self.eval(x, env) if x is not None else None
                           for x in (e.lower, e.upper, e.step)])
        return self.eval(e, env)

    def e_Subscript(self, e, env):
        return self.getitem(self.eval(e.value, env), self.eval_index(e.slice, env))

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_Starred(self, e, env):
        raise Unsupported("starred expression")

    def e_JoinedStr(self, e, env):
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                if p.format_spec is not None or p.conversion not in (-1, 115):
                    parts.append(self.opaque_str('fmt'))
                    continue
                try:
                    v = self.eval(p.value, env)
                    parts.append(self.to_str(v, lenient=True))
                except Unsupported:
                    parts.append(self.opaque_str('fmt'))
        return self.concat_strs(parts)

    def e_Yield(self, e, env):
        x = env
        while x is not None and x.yield_hook is None:
            x = x.parent
        if x is None:
            raise Unsupported("yield")
        return x.yield_hook(self.eval(e.value, env) if e.value is not None else None)

    # comprehensions
    def e_GeneratorExp(self, e, env):
        # the first iterable is evaluated immediately
        first = self.eval(e.generators[0].iter, env)
        g = SGen(e, env)
        g.first = first
        return g

    def e_ListComp(self, e, env):
        from . import loops
        return loops.comp_list(self, e, env, self.eval(e.generators[0].iter, env))

    def e_SetComp(self, e, env):
        from . import loops
        return loops.comp_set(self, e, env, self.eval(e.generators[0].iter, env))

    def e_DictComp(self, e, env):
        from . import loops
        return loops.comp_dict(self, e, env, self.eval(e.generators[0].iter, env))

    # ------------------------------------------------------------ small conveniences
    def decide(self, b):
        return self.ctx.decide(b)

    def isinstance_(self, v, cls):
        return self.ctx.isinstance_(v, cls)

    def bool_(self, f):
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        return SV(Val.bool(f))

    def not_(self, b):
        if b is True or b is False:
            return not b
        if isinstance(b, TypeTest):
            return b.negate()
        return self.bool_(z3.Not(Val.b(b.t)))

    def truth_decide(self, v):
        return self.decide(self.truth(v))

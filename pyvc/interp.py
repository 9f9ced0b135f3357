"""AST interpreter over the real source of /repo (extracted on every run)."""
import ast
import builtins
import functools
import io
import operator
import os
import types

import numpy as np

from . import SRC, names
from .core import (Budget, EngineSignal, PathEnd, SBool, Sym, Unsupported, ctx, deep_sym, is_sym,
                   mknot)

_SRC_CACHE = {}


class ModuleSource:
    def __init__(self, filename):
        with open(filename, encoding='utf-8') as f:
            self.text = f.read()
        self.tree = ast.parse(self.text)
        self.rename(os.path.relpath(os.path.abspath(filename), os.path.abspath(SRC)))
        self.by_line = {}
        self.qual = {}

        def walk(node, qual):
            for ch in ast.iter_child_nodes(node):
                q = qual
                if isinstance(ch, (ast.FunctionDef, ast.ClassDef)):
                    q = f'{qual}.{ch.name}' if qual else ch.name
                    if isinstance(ch, ast.FunctionDef):
                        line = ch.decorator_list[0].lineno if ch.decorator_list else ch.lineno
                        self.by_line.setdefault((ch.name, line), []).append(ch)
                        self.qual[id(ch)] = q
                elif isinstance(ch, ast.Lambda):
                    self.by_line.setdefault(('<lambda>', ch.lineno), []).append(ch)
                    self.qual[id(ch)] = f'{q}.<lambda>'
                walk(ch, q)

        walk(self.tree, '')

    def rename(self, rel):
        """Locals under the names the contracts know them by (names.py)."""
        def walk(node, qual):
            for ch in node.body:
                if isinstance(ch, ast.ClassDef):
                    walk(ch, f'{qual}{ch.name}.')
                elif isinstance(ch, ast.FunctionDef):
                    known = names.table().get(f'{rel}:{qual}{ch.name}')
                    if known:
                        names.restore(ch, known)
        walk(self.tree, '')


def module_source(filename):
    if filename not in _SRC_CACHE:
        _SRC_CACHE[filename] = ModuleSource(filename)
    return _SRC_CACHE[filename]


def in_repo(filename):
    return os.path.abspath(filename).startswith(os.path.abspath(SRC) + os.sep)


def is_repo_function(f):
    return isinstance(f, types.FunctionType) and in_repo(f.__code__.co_filename)


def is_repo_class(c):
    return isinstance(c, type) and (getattr(c, '__module__', '') or '').startswith(
        'gempakio') and not (issubclass(c, tuple) and hasattr(c, '_fields'))


class _Return(EngineSignal):
    def __init__(self, v):
        self.v = v


class _Break(EngineSignal):
    pass


class _Continue(EngineSignal):
    pass


class FnInfo:
    """Static information on a function node."""

    cache = {}

    def __init__(self, node):
        self.node = node
        self.assigned = set()
        self.nonlocals = set()
        self.globals = set()
        self.loops = {}
        n = 0
        params = node.args
        for a in params.posonlyargs + params.args + params.kwonlyargs:
            self.assigned.add(a.arg)
        if params.vararg:
            self.assigned.add(params.vararg.arg)
        if params.kwarg:
            self.assigned.add(params.kwarg.arg)
        body = node.body if isinstance(node.body, list) else [node.body]

        def visit(x):
            nonlocal n
            if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                self.assigned.add(x.name)
                return
            if isinstance(x, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp,
                              ast.GeneratorExp)):
                for y in ast.walk(x):
                    if isinstance(y, ast.NamedExpr):
                        self.assigned.add(y.target.id)
                return
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                self.assigned.add(x.id)
            if isinstance(x, ast.ExceptHandler) and x.name:
                self.assigned.add(x.name)
            if isinstance(x, (ast.Import, ast.ImportFrom)):
                for al in x.names:
                    self.assigned.add((al.asname or al.name).split('.')[0])
            if isinstance(x, ast.Global):
                self.globals.update(x.names)
            if isinstance(x, ast.Nonlocal):
                self.nonlocals.update(x.names)
            if isinstance(x, (ast.For, ast.While)):
                self.loops[id(x)] = n
                n += 1
            for ch in ast.iter_child_nodes(x):
                visit(ch)

        for b in body:
            visit(b)
        self.assigned -= self.globals | self.nonlocals
        self.is_gen = any(isinstance(y, (ast.Yield, ast.YieldFrom)) for b in body
                          for y in ast.walk(b)) and not isinstance(node, ast.Lambda)

    @classmethod
    def of(cls, node):
        k = id(node)
        if k not in cls.cache:
            cls.cache[k] = cls(node)
        return cls.cache[k]


class Frame:
    __slots__ = ('locals', 'parent', 'globals', 'info', 'qual', 'defclass', 'selfobj', 'closure')

    def __init__(self, globals_, info, qual, parent=None, closure=None, defclass=None):
        self.locals = {}
        self.parent = parent
        self.globals = globals_
        self.info = info
        self.qual = qual
        self.closure = closure or {}
        self.defclass = defclass
        self.selfobj = None

    def lookup(self, name):
        f = self
        while f is not None:
            if name in f.locals:
                return f.locals[name]
            if f.info is not None and name in f.info.assigned:
                raise UnboundLocalError(
                    f"cannot access local variable '{name}' where it is not associated with "
                    'a value')
            if name in f.closure:
                return f.closure[name].cell_contents
            f = f.parent
        if name in self.globals:
            return self.globals[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise NameError(f"name '{name}' is not defined")


class IFunc:
    """A function created by interpreted code, or a repository function."""

    def __init__(self, interp, node, globals_, qual, parent=None, closure=None, defaults=(),
                 kwdefaults=None, defclass=None, native=None):
        self.interp = interp
        self.node = node
        self.globals = globals_
        self.qual = qual
        self.parent = parent
        self.closure = closure
        self.defaults = defaults
        self.kwdefaults = kwdefaults or {}
        self.defclass = defclass
        self.native = native
        self.__name__ = getattr(node, 'name', '<lambda>')

    def __call__(self, *args, **kwargs):
        return self.interp.call_ifunc(self, args, kwargs)

    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        return types.MethodType(self, obj)


class SObj(Sym):
    """Instance of a repository class that has a modelled native base (e.g. BytesIO)."""

    def __init__(self, cls):
        object.__setattr__(self, '_cls', cls)
        object.__setattr__(self, '_attrs', {})

    def __bool__(self):
        return True

    def __repr__(self):
        return f'<SObj {self._cls.__name__}>'


class SuperProxy:
    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


BINOPS = {
    ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul,
    ast.Div: operator.truediv, ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod,
    ast.Pow: operator.pow, ast.LShift: operator.lshift, ast.RShift: operator.rshift,
    ast.BitAnd: operator.and_, ast.BitOr: operator.or_, ast.BitXor: operator.xor,
    ast.MatMult: operator.matmul,
}
INPLACE = {
    ast.Add: operator.iadd, ast.Sub: operator.isub, ast.Mult: operator.imul,
    ast.Div: operator.itruediv, ast.FloorDiv: operator.ifloordiv, ast.Mod: operator.imod,
    ast.Pow: operator.ipow, ast.LShift: operator.ilshift, ast.RShift: operator.irshift,
    ast.BitAnd: operator.iand, ast.BitOr: operator.ior, ast.BitXor: operator.ixor,
    ast.MatMult: operator.imatmul,
}


class LoopContract:
    """Invariant of one loop.  Subclasses fill in the three methods.

    havoc(f, interp): replace in the frame everything the loop may modify by fresh values
    inv(f, interp): list of (name, condition) over the frame
    """

    names = ()

    def applies(self, frame, interp):
        return all(n in frame.locals for n in self.names)

    def havoc(self, frame, interp, it):
        raise NotImplementedError

    def inv(self, frame, interp, it):
        raise NotImplementedError

    def after(self, frame, interp, it):
        """Facts to assume after the loop beyond inv and not guard (none by default)."""


class Interp:
    def __init__(self, models, contracts=None, loops=None, step_budget=400000):
        self.models = models
        self.contracts = dict(contracts or {})
        self.loops = list(loops or [])
        self.depth = 0
        self.steps = 0
        self.step_budget = step_budget
        self.used_contracts = set()
        self.visited = set()
        self.loop_contracts_used = set()
        self.pure = None   # objects born in a lazily evaluated expression

    # ---------------------------------------------------------------- functions
    def ifunc_of(self, fn):
        cached = getattr(self, '_ifc', None)
        if cached is None:
            cached = self._ifc = {}
        if fn in cached:
            return cached[fn]
        code = fn.__code__
        ms = module_source(code.co_filename)
        nodes = ms.by_line.get((code.co_name, code.co_firstlineno))
        if not nodes:
            raise Unsupported(f'no source for {fn.__qualname__}')
        if len(nodes) > 1:
            # several lambdas on a line: by column
            pos = [p for p in code.co_positions() if p[2] is not None]
            col = min(p[2] for p in pos) if pos else 0
            cands = [n for n in nodes if n.col_offset <= col]
            node = max(cands, key=lambda n: n.col_offset) if cands else nodes[0]
        else:
            node = nodes[0]
        closure = dict(zip(code.co_freevars, fn.__closure__ or (), strict=True))
        defclass = None
        if '__class__' in closure:
            defclass = closure['__class__'].cell_contents
        r = IFunc(self, node, fn.__globals__, f'{fn.__module__}.{fn.__qualname__}',
                  closure=closure, defaults=fn.__defaults__ or (), kwdefaults=fn.__kwdefaults__,
                  defclass=defclass, native=fn)
        cached[fn] = r
        return r

    def call_ifunc(self, f, args, kwargs):
        if f.qual in self.contracts and not getattr(self, '_no_contract', None) == f.qual:
            self.used_contracts.add(f.qual)
            return self.contracts[f.qual](self, f, args, kwargs)
        self.visited.add(f.qual)
        info = FnInfo.of(f.node)
        if info.is_gen:
            raise Unsupported(f'generator function {f.qual}')
        frame = Frame(f.globals, info, f.qual, parent=f.parent, closure=f.closure,
                      defclass=f.defclass)
        self.bind(f, frame, args, kwargs)
        self.depth += 1
        if self.depth > 60:
            raise Unsupported('call depth')
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, frame)
            try:
                self.block(f.node.body, frame)
            except _Return as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    def bind(self, f, frame, args, kwargs):
        a = f.node.args
        kwargs = dict(kwargs)
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        loc = frame.locals
        if len(args) > len(pos) and not a.vararg:
            raise TypeError(f'{f.__name__}() takes {len(pos)} positional arguments but '
                            f'{len(args)} were given')
        for n, v in zip(pos, args):
            loc[n] = v
        if args:
            frame.selfobj = args[0]
        if a.vararg:
            loc[a.vararg.arg] = tuple(args[len(pos):])
        for n in list(kwargs):
            if n in pos and n in loc:
                raise TypeError(f"{f.__name__}() got multiple values for argument '{n}'")
            if n in pos or n in [x.arg for x in a.kwonlyargs]:
                loc[n] = kwargs.pop(n)
        if kwargs:
            if a.kwarg:
                loc[a.kwarg.arg] = kwargs
            else:
                raise TypeError(
                    f"{f.__name__}() got an unexpected keyword argument '{next(iter(kwargs))}'")
        elif a.kwarg:
            loc[a.kwarg.arg] = {}
        nd = len(f.defaults)
        for i, n in enumerate(pos):
            if n not in loc:
                j = i - (len(pos) - nd)
                if j < 0:
                    raise TypeError(f"{f.__name__}() missing required argument: '{n}'")
                loc[n] = f.defaults[j]
        for x in a.kwonlyargs:
            if x.arg not in loc:
                if x.arg in f.kwdefaults:
                    loc[x.arg] = f.kwdefaults[x.arg]
                else:
                    raise TypeError(f"{f.__name__}() missing keyword argument '{x.arg}'")

    # ---------------------------------------------------------------- calls
    def call(self, fn, args=(), kwargs=None):
        kwargs = kwargs or {}
        if isinstance(fn, IFunc):
            return self.call_ifunc(fn, args, kwargs)
        m = self.models.lookup(fn)
        if m is not None:
            r = m(self, args, kwargs)
            if r is not NotImplemented:
                return r
        if is_repo_function(fn):
            return self.call_ifunc(self.ifunc_of(fn), args, kwargs)
        if isinstance(fn, functools.partial):
            return self.call(fn.func, (*fn.args, *args), {**fn.keywords, **kwargs})
        if isinstance(fn, types.MethodType):
            f2 = fn.__func__
            if isinstance(f2, IFunc) or is_repo_function(f2):
                return self.call(f2, (fn.__self__, *args), kwargs)
        if isinstance(fn, type) and is_repo_class(fn):
            return self.instantiate(fn, args, kwargs)
        if not isinstance(fn, type) and not callable(fn) and not is_sym(fn):
            raise TypeError(f"'{type(fn).__name__}' object is not callable")
        if is_repo_class(type(fn)):
            c = self.class_attr(type(fn), '__call__')
            if c is not None:
                return self.call(c[0], (fn, *args), kwargs)
        if not (deep_sym(args) or deep_sym(kwargs)) or self.models.native_ok(fn):
            return fn(*args, **kwargs)
        m = self.models.native_with_sym(self, fn, args, kwargs)
        if m is not NotImplemented:
            return m
        raise Unsupported(
            f'native call {getattr(fn, "__qualname__", fn)!s} with symbolic arguments')

    def instantiate(self, cls, args, kwargs):
        import enum
        if issubclass(cls, enum.Enum):
            if deep_sym(args):
                return self.models.enum_of(self, cls, args[0])
            return cls(*args, **kwargs)
        if issubclass(cls, BaseException):
            return cls(*args, **kwargs)
        if issubclass(cls, io.BytesIO):
            obj = SObj(cls)
            self.models.init_stream(obj)
        else:
            new = cls.__new__
            if new is object.__new__ or not is_repo_function(new):
                obj = object.__new__(cls) if not issubclass(cls, (dict, list, str)) else None
                if obj is None:
                    raise Unsupported(f'instantiate {cls}')
            else:
                obj = self.call(new, (cls, *args), kwargs)
        if self.pure is not None:
            self.pure[id(obj)] = obj
        init = self.class_attr(cls, '__init__')
        if init is not None and init[0] is not object.__init__:
            fn, owner = init
            if is_repo_function(fn) or isinstance(fn, IFunc):
                self.call(fn, (obj, *args), kwargs)
        return obj

    def class_attr(self, cls, name):
        for c in cls.__mro__:
            if name in c.__dict__:
                return c.__dict__[name], c
        return None

    # ---------------------------------------------------------------- attributes
    def bind_attr(self, v, obj, cls):
        if isinstance(v, staticmethod):
            return v.__func__
        if isinstance(v, classmethod):
            return types.MethodType(v.__func__, cls)
        if isinstance(v, (types.FunctionType, IFunc)):
            return types.MethodType(v, obj)
        if isinstance(v, property):
            return self.call(v.fget, (obj,))
        if hasattr(type(v), '__get__'):
            return v.__get__(obj if not isinstance(obj, SObj) else None, cls)
        return v

    def getattr(self, obj, name):
        if isinstance(obj, SuperProxy):
            o = obj.obj
            t = o._cls if isinstance(o, SObj) else (o if isinstance(o, type) else type(o))
            mro = t.__mro__
            i = mro.index(obj.cls)
            for c in mro[i + 1:]:
                if name in c.__dict__:
                    v = c.__dict__[name]
                    if isinstance(o, SObj) and not is_repo_class(c):
                        return self.models.stream_method(self, o, name)
                    if c is object:
                        if name == '__init__':
                            return lambda *a, **k: None
                        return getattr(super(obj.cls, o), name)
                    return self.bind_attr(v, o, t)
            raise AttributeError(name)
        if isinstance(obj, SObj):
            if name in obj._attrs:
                return obj._attrs[name]
            if name == '__class__':
                return obj._cls
            for c in obj._cls.__mro__:
                if name in c.__dict__:
                    if not is_repo_class(c):
                        return self.models.stream_method(self, obj, name)
                    return self.bind_attr(c.__dict__[name], obj, obj._cls)
            raise AttributeError(name)
        if isinstance(obj, type):
            if is_repo_class(obj):
                a = self.class_attr(obj, name)
                if a is not None:
                    v = a[0]
                    if isinstance(v, staticmethod):
                        return v.__func__
                    if isinstance(v, classmethod):
                        return types.MethodType(v.__func__, obj)
            return getattr(obj, name)
        t = type(obj)
        if is_repo_class(t) and not isinstance(obj, Sym):
            a = self.class_attr(t, name)
            if a is not None and isinstance(a[0], property):
                if is_repo_function(a[0].fget):
                    return self.call(a[0].fget, (obj,))
            d = getattr(obj, '__dict__', None)
            if d is not None and name in d:
                return d[name]
            if a is not None:
                v = a[0]
                if isinstance(v, (types.FunctionType, staticmethod, classmethod, IFunc)):
                    return self.bind_attr(v, obj, t)
            if name == '__class__' or a is not None:
                return getattr(obj, name)
            ga = self.class_attr(t, '__getattr__')
            if ga is not None:
                return self.call(ga[0], (obj, name))
            return getattr(obj, name)
        m = self.models.attr(self, obj, name)
        if m is not NotImplemented:
            return m
        return getattr(obj, name)

    def setattr(self, obj, name, val):
        if self.pure is not None and id(obj) not in self.pure:
            raise Unsupported('effect in a comprehension over a symbolic-length sequence')
        if isinstance(obj, SObj):
            for c in obj._cls.__mro__:
                if name in c.__dict__ and isinstance(c.__dict__[name], property):
                    self.call(c.__dict__[name].fset, (obj, val))
                    return
            obj._attrs[name] = val
            return
        t = type(obj)
        if is_repo_class(t):
            a = self.class_attr(t, name)
            if a is not None and isinstance(a[0], property):
                if a[0].fset is None:
                    raise AttributeError(f"property '{name}' has no setter")
                self.call(a[0].fset, (obj, val))
                return
            sa = self.class_attr(t, '__setattr__')
            if sa is not None and is_repo_function(sa[0]):
                self.call(sa[0], (obj, name, val))
                return
        setattr(obj, name, val)

    # ---------------------------------------------------------------- statements
    def block(self, stmts, f):
        for s in stmts:
            self.stmt(s, f)

    def stmt(self, s, f):
        self.steps += 1
        if self.steps > self.step_budget:
            raise Budget('interpreter step budget')
        getattr(self, 's_' + type(s).__name__, self.s_unsupported)(s, f)

    def s_unsupported(self, s, f):
        raise Unsupported(f'statement {type(s).__name__} line {s.lineno} in {f.qual}')

    def s_Expr(self, s, f):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, f)

    def s_Pass(self, s, f):
        pass

    def s_Global(self, s, f):
        pass

    def s_Nonlocal(self, s, f):
        pass

    def s_Import(self, s, f):
        for al in s.names:
            m = __import__(al.name)
            if al.asname:
                for part in al.name.split('.')[1:]:
                    m = getattr(m, part)
            f.locals[al.asname or al.name.split('.')[0]] = m

    def s_ImportFrom(self, s, f):
        m = __import__(s.module, fromlist=[a.name for a in s.names])
        for al in s.names:
            f.locals[al.asname or al.name] = getattr(m, al.name)

    def s_Return(self, s, f):
        raise _Return(self.ev(s.value, f) if s.value is not None else None)

    def s_Break(self, s, f):
        raise _Break

    def s_Continue(self, s, f):
        raise _Continue

    def s_Raise(self, s, f):
        if s.exc is None:
            e = getattr(self, '_cur_exc', None)
            if e is None:
                raise RuntimeError('No active exception to reraise')
            raise e
        e = self.ev(s.exc, f)
        if isinstance(e, type):
            e = e()
        if s.cause is not None:
            e.__cause__ = self.ev(s.cause, f)
        raise e

    def s_Assert(self, s, f):
        if not self.truth(self.ev(s.test, f)):
            raise AssertionError

    def s_If(self, s, f):
        if self.truth(self.ev(s.test, f)):
            self.block(s.body, f)
        else:
            self.block(s.orelse, f)

    def s_Match(self, s, f):
        v = self.ev(s.subject, f)
        for case in s.cases:
            if self.pattern(case.pattern, v, f) and (
                    case.guard is None or self.truth(self.ev(case.guard, f))):
                self.block(case.body, f)
                return

    def pattern(self, p, v, f):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare(ast.Eq(), v, self.ev(p.value, f)))
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        if isinstance(p, ast.MatchOr):
            return any(self.pattern(q, v, f) for q in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.pattern(p.pattern, v, f):
                return False
            if p.name is not None:
                f.locals[p.name] = v
            return True
        raise Unsupported(f'match pattern {type(p).__name__} line {p.lineno} in {f.qual}')

    def s_Assign(self, s, f):
        v = self.ev(s.value, f)
        for t in s.targets:
            self.assign(t, v, f)

    def s_AnnAssign(self, s, f):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, f), f)

    def s_AugAssign(self, s, f):
        op = INPLACE[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            cur = f.lookup(t.id)
            if isinstance(cur, Sym) and getattr(cur, 'pytype', None) in (
                    list, dict, set, np.ndarray, bytearray) and not hasattr(
                        cur, f'__{op.__name__}__'):
                # others that hold the object would not see the change
                raise Unsupported('in-place operation on a shared value')
            self.assign(t, self.binop(op, cur, self.ev(s.value, f)), f)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, f)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.binop(op, cur, self.ev(s.value, f)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, f)
            k = self.ev_slice(t.slice, f)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.binop(op, cur, self.ev(s.value, f)))
        else:
            raise Unsupported('augassign target')

    def s_Delete(self, s, f):
        for t in s.targets:
            if isinstance(t, ast.Name):
                del f.locals[t.id]
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, f)
                if isinstance(o, Sym):
                    self.models.del_item(self, o, self.ev_slice(t.slice, f))
                else:
                    del o[self.ev_slice(t.slice, f)]
            elif isinstance(t, ast.Attribute):
                delattr(self.ev(t.value, f), t.attr)

    def s_FunctionDef(self, s, f):
        fn = self.make_func(s, f)
        for d in reversed(s.decorator_list):
            fn = self.call(self.ev(d, f), (fn,))
        f.locals[s.name] = fn

    def make_func(self, node, f):
        a = node.args
        defaults = tuple(self.ev(d, f) for d in a.defaults)
        kwd = {x.arg: self.ev(d, f) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        nm = getattr(node, 'name', '<lambda>')
        return IFunc(self, node, f.globals, f'{f.qual}.<locals>.{nm}', parent=f,
                     defaults=defaults, kwdefaults=kwd, defclass=f.defclass)

    def s_With(self, s, f):
        exits = []
        for it in s.items:
            cm = self.ev(it.context_expr, f)
            m = self.models.enter(self, cm)
            if m is NotImplemented:
                ent = self.call(self.getattr(cm, '__enter__'), ())
                exits.append(cm)
            else:
                ent = m
                exits.append(None)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, ent, f)
        try:
            self.block(s.body, f)
        except Exception as e:
            for cm in reversed(exits):
                if cm is not None:
                    if self.call(self.getattr(cm, '__exit__'), (type(e), e, None)):
                        return
            raise
        else:
            for cm in reversed(exits):
                if cm is not None:
                    self.call(self.getattr(cm, '__exit__'), (None, None, None))

    def s_Try(self, s, f):
        try:
            try:
                self.block(s.body, f)
            except Exception as e:
                for h in s.handlers:
                    ok = True
                    if h.type is not None:
                        ty = self.ev(h.type, f)
                        ok = isinstance(e, ty)
                    if ok:
                        if h.name:
                            f.locals[h.name] = e
                        old = getattr(self, '_cur_exc', None)
                        self._cur_exc = e
                        try:
                            self.block(h.body, f)
                        finally:
                            self._cur_exc = old
                        if h.name:
                            f.locals.pop(h.name, None)
                        break
                else:
                    raise
            else:
                self.block(s.orelse, f)
        finally:
            if s.finalbody:
                self.block(s.finalbody, f)

    def loop_contract(self, node, f, it):
        n = f.info.loops.get(id(node)) if f.info else None
        best = None
        self.loop_node = node
        for q, o, c in self.loops:
            if q == f.qual and o == n and c.applies(f, self):
                best = c
                break
        if best is None:
            for q, o, c in self.loops:
                if q == f.qual and o is None and c.applies(f, self):
                    best = c
                    break
        if best is None:
            # a loop that moved (other ordinal, or an extracted helper)
            for q, _o, c in self.loops:
                if c.applies(f, self) and c.names:
                    best = c
                    break
        if best is not None:
            self.loop_contracts_used.add((f.qual, n))
        return best

    _assigned = {}

    def assigned_in(self, s):
        if id(s) not in self._assigned:
            self._assigned[id(s)] = (s, self._assigned_in(s))
        return set(self._assigned[id(s)][1])

    def _assigned_in(self, node):
        out = set()
        for x in ast.walk(node):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                out.add(x.id)
        return out

    def havoc(self, lc, s, f, seq, k):
        """Names the loop assigns and its contract does not give a value are unbound."""
        names = set()
        for x in s.body:
            names |= self.assigned_in(x)
        before = {n: f.locals[n] for n in names if n in f.locals}
        lc.havoc(f, self, seq, k)
        for n, v in before.items():
            if n in f.locals and f.locals[n] is v and n not in getattr(lc, 'keeps', ()):
                del f.locals[n]

    def s_For(self, s, f):
        it = self.ev(s.iter, f)
        seq = self.models.symbolic_iter(self, it)
        if seq is None:
            broke = False
            for v in self.iterate(it):
                self.assign(s.target, v, f)
                try:
                    self.block(s.body, f)
                except _Break:
                    broke = True
                    break
                except _Continue:
                    continue
            if not broke:
                self.block(s.orelse, f)
            return
        # symbolic trip count: the loop is cut by its invariant
        for rule in getattr(self, 'auto_loops', ()):
            if rule(self, s, f, seq):
                return
        lc = self.loop_contract(s, f, seq)
        if lc is None:
            from .filt import auto_loop
            if auto_loop(self, s, f, seq):
                return
            raise Unsupported(f'loop without invariant, line {s.lineno} in {f.qual}')
        c = ctx()
        tag = f'{f.qual.split(".", 2)[-1]}.loop{f.info.loops.get(id(s))}'
        lc.begin(f, self, seq) if hasattr(lc, 'begin') else None
        for nm, cond in lc.inv(f, self, seq, 0):
            c.oblige(f'{tag}.init.{nm}', cond)
        from .core import SInt
        k = SInt.var(c.fresh_name('iter'))
        n = seq.length
        mode = c.choose(['body', 'exit'])
        self.havoc(lc, s, f, seq, k if mode == 'body' else n)
        if mode == 'body':
            c.assume(k >= 0)
            c.assume(k < n)
            for _nm, cond in lc.inv(f, self, seq, k):
                c.assume(cond)
            lc.assume_step(f, self, seq, k) if hasattr(lc, 'assume_step') else None
            c.cover(f'{tag}.body')
            try:
                for v in self.step_items(seq, k):
                    self.assign(s.target, v, f)
                    self.block(s.body, f)
            except _Continue:
                pass
            except _Break:
                lc.on_break(f, self, seq, k) if hasattr(lc, 'on_break') else None
                return
            for nm, cond in lc.inv(f, self, seq, k + 1):
                c.oblige(f'{tag}.preserved.{nm}', cond)
            raise PathEnd
        c.assume(n >= 0)
        for _nm, cond in lc.inv(f, self, seq, n):
            c.assume(cond)
        lc.after(f, self, seq)
        # target variable after the loop: the last element (unbound if none)
        self.block(s.orelse, f)

    def step_items(self, seq, k):
        """The elements step k of a loop visits: one, or those a filter lets through."""
        from .filt import SFilt
        if isinstance(seq, SFilt):
            vs = seq.parts[0].at(k)
            if len(vs) > 1:
                raise Unsupported('several elements in one step')
            return vs
        return [seq.item(k)]

    def s_While(self, s, f):
        # concrete guards unroll; a symbolic guard needs an invariant when one is declared
        lc = self.loop_contract(s, f, None)
        if lc is None:
            n = 0
            while True:
                if not self.truth(self.ev(s.test, f)):
                    self.block(s.orelse, f)
                    return
                n += 1
                if n > 3000:
                    raise Budget('while loop unrolled too often')
                try:
                    self.block(s.body, f)
                except _Break:
                    return
                except _Continue:
                    continue
        c = ctx()
        tag = f'{f.qual.split(".", 2)[-1]}.loop{f.info.loops.get(id(s))}'
        for nm, cond in lc.inv(f, self, None, 0):
            c.oblige(f'{tag}.init.{nm}', cond)
        mode = c.choose(['body', 'exit'])
        self.havoc(lc, s, f, None, None)
        for _nm, cond in lc.inv(f, self, None, None):
            c.assume(cond)
        g = self.ev(s.test, f)
        if mode == 'body':
            if not self.truth(g):
                raise PathEnd
            c.cover(f'{tag}.body')
            # a bound that falls with every round, where the contract gives one
            v0 = lc.variant(f, self) if hasattr(lc, 'variant') else None
            try:
                self.block(s.body, f)
            except _Continue:
                pass
            except _Break:
                lc.on_break(f, self, None, None) if hasattr(lc, 'on_break') else None
                return
            if v0 is not None:
                c.oblige(f'{tag}.variant.bounded', v0 >= 0)
                c.oblige(f'{tag}.variant.decreases', lc.variant(f, self) < v0)
            for nm, cond in lc.inv(f, self, None, 1):
                c.oblige(f'{tag}.preserved.{nm}', cond)
            raise PathEnd
        if self.truth(g):
            raise PathEnd
        self.block(s.orelse, f)

    # ---------------------------------------------------------------- assignment
    def assign(self, t, v, f):
        if isinstance(t, ast.Name):
            if f.info is not None and t.id in f.info.nonlocals:
                p = f.parent
                while p is not None:
                    if t.id in p.locals:
                        p.locals[t.id] = v
                        return
                    p = p.parent
            if f.info is not None and t.id in f.info.globals:
                f.globals[t.id] = v
                return
            f.locals[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = list(self.iterate(v))
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(vals) < len(t.elts) - 1:
                    raise ValueError('not enough values to unpack')
                mid = vals[i:len(vals) - after]
                for e, x in zip(t.elts[:i], vals[:i]):
                    self.assign(e, x, f)
                self.assign(t.elts[i].value, mid, f)
                for e, x in zip(t.elts[i + 1:], vals[len(vals) - after:]):
                    self.assign(e, x, f)
                return
            if len(vals) != len(t.elts):
                raise ValueError(
                    'too many values to unpack' if len(vals) > len(t.elts)
                    else 'not enough values to unpack')
            for e, x in zip(t.elts, vals):
                self.assign(e, x, f)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, f), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, f)
            self.setitem(o, self.ev_slice(t.slice, f), v)
        else:
            raise Unsupported(f'assign target {type(t).__name__}')

    def setitem(self, o, k, v):
        m = self.models.setitem(self, o, k, v)
        if m is not NotImplemented:
            return
        if is_repo_class(type(o)):
            a = self.class_attr(type(o), '__setitem__')
            if a:
                self.call(a[0], (o, k, v))
                return
        o[k] = v

    def getitem(self, o, k):
        m = self.models.getitem(self, o, k)
        if m is not NotImplemented:
            return m
        if is_repo_class(type(o)):
            a = self.class_attr(type(o), '__getitem__')
            if a:
                return self.call(a[0], (o, k))
        return o[k]

    def iterate(self, v):
        m = self.models.iterate(self, v)
        if m is not NotImplemented:
            return m
        if is_repo_class(type(v)):
            a = self.class_attr(type(v), '__iter__')
            if a and is_repo_function(a[0]):
                return self.iterate(self.call(a[0], (v,)))
        return iter(v)

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if is_repo_class(type(v)) and not isinstance(v, Sym):
            for nm in ('__bool__', '__len__'):
                a = self.class_attr(type(v), nm)
                if a and is_repo_function(a[0]):
                    return self.truth(self.call(a[0], (v,)))
        return bool(v)

    # ---------------------------------------------------------------- expressions
    def ev(self, e, f):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported(f'expression {type(e).__name__} line {e.lineno} in {f.qual}')
        return m(e, f)

    def e_Constant(self, e, f):
        return e.value

    def e_Name(self, e, f):
        return f.lookup(e.id)

    def e_NamedExpr(self, e, f):
        v = self.ev(e.value, f)
        g = f
        while g.info is None and g.parent is not None:
            g = g.parent
        g.locals[e.target.id] = v
        return v

    def e_Attribute(self, e, f):
        return self.getattr(self.ev(e.value, f), e.attr)

    def e_Tuple(self, e, f):
        return tuple(self.elts(e.elts, f))

    def e_List(self, e, f):
        return self.elts(e.elts, f)

    def elts(self, xs, f):
        out = []
        for x in xs:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.ev(x.value, f)))
            else:
                out.append(self.ev(x, f))
        return out

    def e_Set(self, e, f):
        v = self.elts(e.elts, f)
        if deep_sym(v):
            return self.models.make_set(self, v)
        return set(v)

    def e_Dict(self, e, f):
        if not e.keys and getattr(self.models, 'new_dict', None):
            return self.models.new_dict(self)
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ev(v, f))
            else:
                kk = self.ev(k, f)
                d[kk] = self.ev(v, f)
        return d

    def e_JoinedStr(self, e, f):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, f)
                spec = self.ev(v.format_spec, f) if v.format_spec is not None else ''
                if v.conversion == 114:
                    x = repr(x) if not deep_sym(x) else '<sym>'
                elif v.conversion == 115:
                    x = self.call(str, (x,))
                elif v.conversion == 97:
                    x = ascii(x)
                parts.append(self.models.format(self, x, spec))
        if all(isinstance(p, str) for p in parts):
            return ''.join(parts)
        return self.models.join_str(self, parts)

    def e_BinOp(self, e, f):
        return self.binop(BINOPS[type(e.op)], self.ev(e.left, f), self.ev(e.right, f))

    def binop(self, op, a, b):
        m = self.models.binop(self, op, a, b)
        if m is not NotImplemented:
            return m
        return op(a, b)

    def e_UnaryOp(self, e, f):
        v = self.ev(e.operand, f)
        if isinstance(e.op, ast.Not):
            if isinstance(v, SBool):
                return mknot(v)
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            return -v
        if isinstance(e.op, ast.UAdd):
            return +v
        if isinstance(v, SBool):
            raise Unsupported('~ on a symbolic bool')
        return ~v

    def e_BoolOp(self, e, f):
        is_and = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, f)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if is_and and not t:
                return v if not isinstance(v, SBool) else False
            if not is_and and t:
                return v if not isinstance(v, SBool) else True
        return v

    def e_IfExp(self, e, f):
        return self.ev(e.body if self.truth(self.ev(e.test, f)) else e.orelse, f)

    def e_Compare(self, e, f):
        left = self.ev(e.left, f)
        n = len(e.ops)
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(r, f)
            v = self.compare(op, left, right)
            if i == n - 1:
                return v
            if not self.truth(v):
                return v if not isinstance(v, SBool) else False
            left = right
        return v

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.models.is_(self, a, b)
        if isinstance(op, ast.IsNot):
            return mknot(self.models.is_(self, a, b))
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return mknot(self.contains(b, a))
        fn = {ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt,
              ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[type(op)]
        m = self.models.compare(self, fn, a, b)
        if m is not NotImplemented:
            return m
        if is_repo_class(type(a)) and isinstance(op, (ast.Eq, ast.NotEq)):
            c = self.class_attr(type(a), '__eq__')
            if c and is_repo_function(c[0]):
                r = self.call(c[0], (a, b))
                return r if isinstance(op, ast.Eq) else mknot(r)
        return fn(a, b)

    def contains(self, cont, x):
        m = self.models.contains(self, cont, x)
        if m is not NotImplemented:
            return m
        if is_repo_class(type(cont)):
            c = self.class_attr(type(cont), '__contains__')
            if c and is_repo_function(c[0]):
                return self.call(c[0], (cont, x))
        return x in cont

    def e_Call(self, e, f):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            if f.defclass is None:
                raise Unsupported('super() outside a class')
            g = f
            while g.selfobj is None and g.parent is not None:
                g = g.parent
            return SuperProxy(f.defclass, g.selfobj)
        if isinstance(e.func, ast.Name) and e.func.id == 'locals':
            raise Unsupported('locals()')
        fn = self.ev(e.func, f)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, f)
                st = self.models.star(self, v)
                if st is not NotImplemented:
                    args.append(st)
                else:
                    args.extend(self.iterate(v))
            else:
                args.append(self.ev(a, f))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, f)
            if k.arg is None:
                if hasattr(fn, 'splat') and is_sym(v) and len(e.keywords) == 1 and not args:
                    return fn.splat(v)
                if hasattr(v, 'spread'):
                    # names of symbolic number: only into a dictionary
                    d = getattr(fn, '__self__', None)
                    if type(d) is not dict or fn.__name__ != 'update' or len(
                            e.keywords) != 1 or args:
                        raise Unsupported('** of a symbolic dictionary')
                    v.spread(d)
                    return None
                if not hasattr(v, 'keys'):
                    raise TypeError('argument after ** must be a mapping')
                for kk in v:
                    kw[kk] = v[kk]
            else:
                if k.arg in kw:
                    raise TypeError(f"got multiple values for keyword argument '{k.arg}'")
                kw[k.arg] = v
        return self.call(fn, tuple(args), kw)

    def ev_slice(self, s, f):
        if isinstance(s, ast.Slice):
            return slice(*[None if x is None else self.ev(x, f)
                           for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.ev_slice(x, f) for x in s.elts)
        return self.ev(s, f)

    def e_Slice(self, e, f):
        return self.ev_slice(e, f)

    def e_Subscript(self, e, f):
        return self.getitem(self.ev(e.value, f), self.ev_slice(e.slice, f))

    def e_Starred(self, e, f):
        raise Unsupported('starred expression')

    def e_Lambda(self, e, f):
        return self.make_func(e, f)

    # comprehensions
    def comp(self, gens, f, emit, i=0):
        g = gens[i]
        it = self.ev(g.iter, f)
        for v in self.iterate(it):
            self.assign(g.target, v, f)
            ok = True
            for c in g.ifs:
                if not self.truth(self.ev(c, f)):
                    ok = False
                    break
            if not ok:
                continue
            if i + 1 < len(gens):
                yield from self.comp(gens, f, emit, i + 1)
            else:
                yield emit(f)

    def sub(self, f):
        return Frame(f.globals, None, f.qual, parent=f, defclass=f.defclass)

    def frozen(self, f):
        """The frame as it is now, for what is computed on demand later."""
        if f is None:
            return None
        r = Frame(f.globals, f.info, f.qual, parent=self.frozen(f.parent), closure=f.closure,
                  defclass=f.defclass)
        r.selfobj = f.selfobj
        r.locals = dict(f.locals)
        return r

    def unchanged(self, f, nodes):
        """A check that the names the nodes use are bound as they are now (lazy evaluation)."""
        names = {x.id for n in nodes for x in ast.walk(n)
                 if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}

        def find(n):
            try:
                return f.lookup(n)
            except (NameError, ValueError):
                return None
        was = {n: find(n) for n in names}

        def check():
            if any(find(n) is not v for n, v in was.items()):
                raise Unsupported('a variable of a lazy expression is bound anew')
        return check

    def sym_comp(self, e, f, elt):
        """[elt for x in symbolic-length sequence] without filters: a mapped sequence."""
        if len(e.generators) != 1:
            return NotImplemented
        g = e.generators[0]
        it = self.ev(g.iter, f)
        seq = self.models.symbolic_iter(self, it)
        if seq is None:
            return ('iter', it)
        from .filt import SFilt, flat_map, probe, quiet
        lazy = isinstance(e, ast.GeneratorExp)
        live, f = f, self.frozen(f)
        check = self.unchanged(live.parent, [elt, *g.ifs]) if lazy else lambda: None
        if g.ifs or isinstance(seq, SFilt):
            def pick(v):
                check()
                sf = self.sub(f)
                self.assign(g.target, v, sf)
                old = self.pure
                self.pure = {} if old is None else old
                try:
                    if not all(self.truth(self.ev(c, sf)) for c in g.ifs):
                        return []
                    return [self.ev(elt, sf)]
                finally:
                    self.pure = old
            probe(seq, pick)
            return ('seq', flat_map(seq, quiet(pick)))

        for _q, _o, c in self.loops:
            if getattr(c, 'comprehension', None) and c.applies(live, self):
                return ('seq', self.cut_comp(c, e, live, g, elt, seq))

        def get(i):
            check()
            sf = self.sub(f)
            self.assign(g.target, seq.item(i), sf)
            old = self.pure
            self.pure = {} if old is None else old
            try:
                return self.ev(elt, sf)
            finally:
                self.pure = old
        return ('seq', self.models.map_seq(self, seq, get))

    def cut_comp(self, lc, e, f, g, elt, seq):
        """A comprehension whose element has effects, cut by an invariant like a loop."""
        from .core import SInt
        c = ctx()
        tag = f'{f.qual.split(".", 2)[-1]}.comprehension'
        lc.begin(f, self, seq)
        for nm, cond in lc.inv(f, self, seq, 0):
            c.oblige(f'{tag}.init.{nm}', cond)
        k = SInt.var(c.fresh_name('iter'))
        n = seq.length
        mode = c.choose(['body', 'exit'])
        lc.havoc(f, self, seq, k if mode == 'body' else n)
        if mode == 'body':
            c.assume(k >= 0)
            c.assume(k < n)
            c.cover(f'{tag}.body')
            sf = self.sub(f)
            self.assign(g.target, seq.item(k), sf)
            lc.element(f, self, k, self.ev(elt, sf))
            for nm, cond in lc.inv(f, self, seq, k + 1):
                c.oblige(f'{tag}.preserved.{nm}', cond)
            raise PathEnd
        c.assume(n >= 0)
        lc.after(f, self, seq)
        return lc.comprehension(f, self, n)

    def e_ListComp(self, e, f):
        sf = self.sub(f)
        r = self.sym_comp(e, sf, e.elt)
        if r is not NotImplemented:
            if r[0] == 'seq':
                return r[1]
            return list(self.comp_first(e.generators, sf, lambda g: self.ev(e.elt, g), r[1]))
        return list(self.comp(e.generators, sf, lambda g: self.ev(e.elt, g)))

    def comp_first(self, gens, f, emit, it):
        g = gens[0]
        for v in self.iterate(it):
            self.assign(g.target, v, f)
            ok = True
            for c in g.ifs:
                if not self.truth(self.ev(c, f)):
                    ok = False
                    break
            if ok:
                if len(gens) > 1:
                    yield from self.comp(gens, f, emit, 1)
                else:
                    yield emit(f)

    def e_GeneratorExp(self, e, f):
        sf = self.sub(f)
        r = self.sym_comp(e, sf, e.elt)
        if r is not NotImplemented:
            if r[0] == 'seq':
                return r[1]
            return self.comp_first(e.generators, sf, lambda g: self.ev(e.elt, g), r[1])
        return self.comp(e.generators, sf, lambda g: self.ev(e.elt, g))

    def e_SetComp(self, e, f):
        sf = self.sub(f)
        r = self.sym_comp(e, sf, e.elt)
        if r is not NotImplemented:
            if r[0] == 'seq':
                from .filt import SFilt, parts_of
                return SFilt(parts_of(r[1]), set)
            v = list(self.comp_first(e.generators, sf, lambda g: self.ev(e.elt, g), r[1]))
        else:
            v = list(self.comp(e.generators, sf, lambda g: self.ev(e.elt, g)))
        if deep_sym(v):
            return self.models.make_set(self, v)
        return set(v)

    def e_DictComp(self, e, f):
        sf = self.sub(f)
        pair = ast.copy_location(ast.Tuple([e.key, e.value], ast.Load()), e)
        r = self.sym_comp(e, sf, pair)
        if r is NotImplemented:
            return dict(self.comp(e.generators, sf,
                                  lambda g: (self.ev(e.key, g), self.ev(e.value, g))))
        if r[0] == 'seq':
            from .dicts import DictOf
            return DictOf(r[1])
        return dict(self.comp_first(e.generators, sf, lambda g: (
            self.ev(e.key, g), self.ev(e.value, g)), r[1]))

"""Abstract interpreter for the Python source of the analysed package.

It never imports or runs the analysed code: every module is parsed to a syntax tree and
its statements are interpreted over the abstract values of ``dom``/``values``.
"""
import ast
import os
import builtins as _bi
import math
import numpy as np
from . import dom, terms as tm, units as U
from .dom import A, PyRaise, Unsupported, Undecided, num
from .values import *  # noqa

MAX_LOOP = 4000
MAX_DEPTH = 120


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class Env:
    __slots__ = ("vars", "parent", "globals", "nonlocals", "globs", "func", "cls")

    def __init__(self, parent, globals_, func=None):
        self.vars = {}
        self.parent = parent
        self.globals = globals_
        self.nonlocals = None
        self.globs = None
        self.func = func
        self.cls = None


_ast_cache = {}


def parse_file(path):
    st = os.stat(path)
    key = (path, st.st_mtime_ns, st.st_size)
    if key not in _ast_cache:
        with open(path) as f:
            src = f.read()
        _ast_cache[key] = ast.parse(src, path)
    return _ast_cache[key]


def _assigned(node):
    """Names bound in a function body (for local scoping)."""
    names = set()

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            names.add(n.name)

        visit_AsyncFunctionDef = visit_FunctionDef

        def visit_ClassDef(self, n):
            names.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                names.add(n.id)

        def visit_ListComp(self, n):
            for g in n.generators:
                self.visit(g.iter)

        visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp

        def visit_Import(self, n):
            for a in n.names:
                names.add((a.asname or a.name).split(".")[0])

        def visit_ImportFrom(self, n):
            for a in n.names:
                names.add(a.asname or a.name)

        def visit_ExceptHandler(self, n):
            if n.name:
                names.add(n.name)
            self.generic_visit(n)

    v = V()
    for s in node.body if isinstance(node.body, list) else [node.body]:
        v.visit(s)
    return names


_loc_cache = {}
_gen_cache = {}


def _is_gen(node):
    if node not in _gen_cache:
        found = False
        stack = list(node.body) if isinstance(node.body, list) else [node.body]
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                found = True
                break
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            stack.extend(ast.iter_child_nodes(n))
        _gen_cache[node] = found
    return _gen_cache[node]


class Interp:
    def __init__(self, root, package, lib):
        self.root = root            # directory containing the package directory
        self.package = package
        self.extra_roots = {}
        self.lib = lib
        self.modules = {}
        self.script = []
        self.pos = 0
        self.max_forks = 6
        self.depth = 0
        self.steps = 0
        self.max_steps = 400000
        self.lines = set()
        self.funcs = set()
        self.calls = 0
        self.stack = []
        self.site = None
        self.tainted = None
        self.warnings = []
        self.guards = {}
        self.hooks = {}
        self.ctx = None
        self.draws = []
        self.gps = []
        self.ambients = []
        self.in_query = False
        self.nrng = 0
        self.gsite = None
        self.global_rng = lib.Rng("global")
        self.NDARRAY = NType("ndarray", lambda v: isinstance(v, Q) or (isinstance(v, A) and not v.scalar))
        self.QTYPE = NType("Quantity", lambda v: isinstance(v, Q), ctor=lib.quantity_ctor)
        self.builtins = lib.make_builtins(self)
        dom.guard_hook[0] = self._guard

    def _guard(self, op, must, may, a=None, b=None):
        if self.site is None:
            return
        g = self.guards.setdefault((self.site[0], self.site[1], op), [0, 0, 0])
        g[0] += bool(np.any(must))
        g[1] += bool(np.any(~np.asarray(may, bool)))
        g[2] += bool(np.any(np.asarray(may, bool) & ~np.asarray(must, bool)))

    def ambient(self, what):
        self.ambients.append((what, self.site))

    # ------------------------------------------------------------ decisions
    def decide(self, b, why=""):
        """Truth of an abstract boolean; forks the trace when undecided."""
        if isinstance(b, bool):
            return b
        if isinstance(b, A):
            if b.shape != () and b.size != 1:
                if b.size == 0:
                    return False
                raise PyRaise(ValueError, "The truth value of an array with more than one element is ambiguous", self.site)
            bb = dom.to_bool(b)
            lo, hi = bool(np.all(bb.lo > 0)), bool(np.all(bb.hi > 0))
            if lo == hi:
                return lo
        if self.pos < len(self.script):
            v = self.script[self.pos]
        else:
            if len(self.script) >= self.max_forks:
                raise Undecided("too many undecided branches (at %s)" % (self.site,))
            v = True
            self.script.append(True)
        self.pos += 1
        return v

    def truth(self, v):
        if v is None:
            return False
        if isinstance(v, (bool, int, float, str)):
            return bool(v)
        if isinstance(v, AIter):
            return True
        if isinstance(v, (list, tuple, range)):
            return len(v) > 0
        if isinstance(v, (ADict, ASet)):
            return len(v.items_) > 0
        if isinstance(v, A):
            return self.decide(v)
        if isinstance(v, Q):
            if v.unit.is_dimless():
                return self.decide(v.v)
            raise Unsupported("truth of a dimensional quantity")
        if isinstance(v, Obj):
            m, _ = v.cls.lookup("__bool__")
            if m is not None:
                return self.truth(self.call(Bound(m, v), [], {}))
            m, _ = v.cls.lookup("__len__")
            if m is not None:
                return self.truth(self.call(Bound(m, v), [], {}))
            return True
        if isinstance(v, Top):
            return self.decide(None)
        if isinstance(v, AStr):
            return True
        return True

    # ------------------------------------------------------------ modules
    def is_src(self, name):
        top = name.split(".")[0]
        return top == self.package or top in self.extra_roots

    def mod_path(self, name):
        root = self.extra_roots.get(name.split(".")[0], self.root)
        p = os.path.join(root, *name.split("."))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.exists(p + ".py"):
            return p + ".py", False
        return None, False

    def import_module(self, name):
        if name in self.modules:
            return self.modules[name]
        if self.is_src(name):
            if "." in name:
                self.import_module(name.rsplit(".", 1)[0])
                if name in self.modules:
                    return self.modules[name]
            path, ispkg = self.mod_path(name)
            if path is None:
                raise PyRaise(ModuleNotFoundError, "No module named %r" % name, self.site)
            m = ModV(name, {})
            m.ns["__name__"] = name
            m.ns["__file__"] = path
            m.ns["__package__"] = name if ispkg else name.rpartition(".")[0]
            self.modules[name] = m
            tree = parse_file(path)
            env = Env(None, m.ns)
            env.vars = m.ns
            saved = self.stack, self.site
            self.stack = self.stack + [(path, "<module>")]
            self.exec_body(tree.body, env)
            self.stack, self.site = saved
            if "." in name:
                pk, _, leaf = name.rpartition(".")
                self.modules[pk].ns[leaf] = m
            return m
        m = self.lib.module(self, name)
        self.modules[name] = m
        return m

    def mod_attr(self, m, name):
        if name in m.ns:
            return m.ns[name]
        if m.getter is not None:
            v = m.getter(name)
            if v is not None:
                m.ns[name] = v
                return v
        if self.is_src(m.name):
            sub = m.name + "." + name
            if self.mod_path(sub)[0]:
                return self.import_module(sub)
            if m.name.split(".")[0] in ("matplotlib", "cartopy"):
                return Top("%s.%s" % (m.name, name))
            if name.startswith("__") and name.endswith("__"):
                return Top("%s.%s" % (m.name, name))
            raise PyRaise(AttributeError, "module %r has no attribute %r" % (m.name, name), self.site)
        return Top("%s.%s" % (m.name, name))

    # ------------------------------------------------------------ names
    def load(self, name, env):
        e = env
        if e.globs and name in e.globs:
            if name in e.globals:
                return e.globals[name]
        else:
            first = True
            while e is not None:
                if name in e.vars:
                    return e.vars[name]
                if first and e.func is not None and e.nonlocals is None and name in self._locals(e.func) \
                        and (e.globs is None or name not in e.globs):
                    raise PyRaise(UnboundLocalError, "cannot access local variable %r" % name, self.site)
                first = False
                e = e.parent
            if name in env.globals:
                return env.globals[name]
        b = self.builtins.get(name)
        if b is not None or name in self.builtins:
            return b
        import builtins
        if hasattr(builtins, name) or name in ("__file__", "__doc__", "__package__", "__spec__"):
            return Top(name)
        raise PyRaise(NameError, "name %r is not defined" % name, self.site)

    def _locals(self, fv):
        k = fv.node
        if k not in _loc_cache:
            _loc_cache[k] = _assigned(k)
        return _loc_cache[k]

    def store(self, name, v, env):
        if env.globs and name in env.globs:
            env.globals[name] = v
            return
        if env.nonlocals and name in env.nonlocals:
            e = env.parent
            while e is not None:
                if name in e.vars:
                    e.vars[name] = v
                    return
                e = e.parent
        env.vars[name] = v

    # ------------------------------------------------------------ statements
    def exec_body(self, body, env):
        for s in body:
            self.exec(s, env)

    def exec(self, s, env):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Undecided("step budget exhausted")
        self.site = (self.stack[-1][0] if self.stack else "?", s.lineno, self.stack[-1][1] if self.stack else "?")
        self.lines.add((self.site[0], s.lineno))
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(s).__name__)
        return m(s, env)

    def s_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, env)

    def s_Pass(self, s, env):
        pass

    def s_Assign(self, s, env):
        v = self.eval(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, env), env)
        elif env.cls is not None and isinstance(s.target, ast.Name):
            env.vars.setdefault("__annotations__", []).append(s.target.id)
            return
        if env.cls is not None and isinstance(s.target, ast.Name):
            env.vars.setdefault("__annotations__", []).append(s.target.id)

    def s_AugAssign(self, s, env):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load(t.id, env)
            new = self.inplace(op, cur, self.eval(s.value, env))
            self.store(t.id, new, env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            cur = self.getattr(o, t.attr)
            new = self.inplace(op, cur, self.eval(s.value, env))
            self.setattr(o, t.attr, new)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.eval_index(t.slice, env)
            cur = self.getitem(o, k)
            rhs = self.eval(s.value, env)
            new = self.inplace(op, cur, rhs)
            self.setitem(o, k, new)
        else:
            raise Unsupported("augmented target")

    def inplace(self, op, cur, rhs):
        if isinstance(cur, list):
            if op == "Add":
                cur.extend(self.iterate(rhs))
                return cur
            if op == "Mult":
                n = self.lib.as_int(self, rhs)
                cur[:] = cur * n
                return cur
        if isinstance(cur, ADict) and op == "BitOr":
            self.lib.dict_update(self, cur, rhs)
            return cur
        if isinstance(cur, A) and not cur.scalar:
            r = self.binop(op, cur, rhs)
            if isinstance(r, Q):
                if r.unit.is_dimless():
                    r = self.lib.to_unit(self, r, U.ONE).v
                else:
                    raise PyRaise(U.UnitTypeError, "Cannot store non-quantity output", self.site)
            if isinstance(r, Top):
                raise Unsupported("in-place with unknown value")
            if cur.dtype in ("i8", "b1") and r.dtype[0] == "f":
                raise PyRaise(TypeError, "Cannot cast ufunc output from float64 to %s" % cur.dtype, self.site)
            if r.shape != cur.shape:
                raise PyRaise(ValueError, "non-broadcastable output operand", self.site)
            self._store_into(cur, r)
            return cur
        if isinstance(cur, Q):
            r = self.binop(op, cur, rhs)
            if isinstance(r, A):
                r = Q(r, U.ONE)
            if not isinstance(r, Q):
                raise Unsupported("in-place quantity")
            if r.v.shape != cur.v.shape:
                raise PyRaise(ValueError, "non-broadcastable output operand", self.site)
            if op in ("Add", "Sub", "Mod"):
                r = self.lib.to_unit(self, r, cur.unit)
            self._store_into(cur.v, r.v)
            cur.unit = r.unit
            return cur
        return self.binop(op, cur, rhs, inplace=True)

    @staticmethod
    def _store_into(dst, src):
        dst.lo[...] = src.lo
        dst.hi[...] = src.hi
        dst.nan[...] = src.nan
        dst.rnd = True
        if dst.t is not None:
            if src.t is not None:
                dst.t[...] = src.t
            else:
                for j in np.ndindex(dst.shape):
                    dst.t[j] = dom.fresh("ip")

    def s_Return(self, s, env):
        raise _Return(None if s.value is None else self.eval(s.value, env))

    def s_If(self, s, env):
        if self.truth(self.eval(s.test, env)):
            self.exec_body(s.body, env)
        else:
            self.exec_body(s.orelse, env)

    def s_While(self, s, env):
        n = 0
        while self.truth(self.eval(s.test, env)):
            n += 1
            if n > MAX_LOOP:
                raise Undecided("loop bound")
            try:
                self.exec_body(s.body, env)
            except _Break:
                break
            except _Continue:
                continue
        else:
            self.exec_body(s.orelse, env)

    def s_For(self, s, env):
        it = self.eval(s.iter, env)
        for x in self.iterate(it, live=True):
            self.assign(s.target, x, env)
            try:
                self.exec_body(s.body, env)
            except _Break:
                break
            except _Continue:
                continue
        else:
            self.exec_body(s.orelse, env)

    def s_Break(self, s, env):
        raise _Break()

    def s_Continue(self, s, env):
        raise _Continue()

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, env)
                k = self.eval_index(t.slice, env)
                self.delitem(o, k)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, env)
                if isinstance(o, Obj) and t.attr in o.attrs:
                    del o.attrs[t.attr]
                else:
                    raise PyRaise(AttributeError, t.attr, self.site)

    def s_Global(self, s, env):
        env.globs = (env.globs or set()) | set(s.names)

    def s_Nonlocal(self, s, env):
        env.nonlocals = (env.nonlocals or set()) | set(s.names)

    def s_Import(self, s, env):
        for a in s.names:
            m = self.import_module(a.name)
            if a.asname:
                self.store(a.asname, m, env)
            else:
                top = a.name.split(".")[0]
                self.store(top, self.import_module(top), env)

    def s_ImportFrom(self, s, env):
        name = s.module or ""
        if s.level:
            pkg = env.globals.get("__package__") or ""
            parts = pkg.split(".")
            if s.level > 1:
                parts = parts[:-(s.level - 1)]
            name = ".".join(parts + ([s.module] if s.module else []))
        if name == "__future__":
            return
        m = self.import_module(name)
        for a in s.names:
            if a.name == "*":
                for k, v in list(m.ns.items()):
                    if not k.startswith("_"):
                        self.store(k, v, env)
                continue
            if self.is_src(m.name) and a.name not in m.ns:
                sub = m.name + "." + a.name
                if self.mod_path(sub)[0]:
                    self.store(a.asname or a.name, self.import_module(sub), env)
                    continue
                raise PyRaise(ImportError, "cannot import name %r from %r" % (a.name, m.name), self.site)
            self.store(a.asname or a.name, self.mod_attr(m, a.name), env)

    def s_FunctionDef(self, s, env):
        self.store(s.name, self.make_func(s, env), env)

    def make_func(self, s, env):
        defaults = [self.eval(d, env) for d in s.args.defaults]
        kwd = {a.arg: self.eval(d, env) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        qn = s.name if hasattr(s, "name") else "<lambda>"
        if env.cls is not None:
            qn = env.cls + "." + qn
            parent = env.parent
        else:
            parent = env if env.vars is not env.globals else None
        f = FuncV(s, parent, self.stack[-1][0] if self.stack else "?", qn, defaults, kwd)
        f.globals = env.globals
        r = f
        for d in reversed(getattr(s, "decorator_list", [])):
            r = self.call(self.eval(d, env), [r], {})
        return r

    s_AsyncFunctionDef = None

    def s_ClassDef(self, s, env):
        bases = [self.eval(b, env) for b in s.bases]
        bases = [b for b in bases if not isinstance(b, Top)] + [b for b in bases if isinstance(b, Top)]
        ce = Env(env if env.vars is not env.globals else None, env.globals)
        ce.cls = s.name
        self.exec_body(s.body, ce)
        ns = ce.vars
        c = ClassV(s.name, bases, ns, self.stack[-1][0] if self.stack else "?")
        for k, v in list(ns.items()):
            f = v
            while isinstance(f, (StaticM, ClassM, Memo)):
                f = f.f
            if isinstance(f, Prop):
                f.attrname = k
                for g in (f.fget, f.fset):
                    if isinstance(g, FuncV):
                        g.cls = c
            if isinstance(f, FuncV):
                f.cls = c
        if any(isinstance(b, NType) and b.name == "Enum" for b in c.native_bases()):
            ns["$members"] = []
            for k, v in list(ns.items()):
                if k.startswith(("_", "$")) or isinstance(v, (FuncV, StaticM, ClassM, Prop, Memo)):
                    continue
                o = Obj(c)
                o.attrs.update(name=k, value=len(ns["$members"]) + 1 if v == ("$auto",) else v)
                ns["$members"].append(o)
                ns[k] = o
        r = c
        for d in reversed(s.decorator_list):
            r = self.call(self.eval(d, env), [r], {})
        self.store(s.name, r, env)

    def s_Raise(self, s, env):
        if s.exc is None:
            if getattr(self, "handling", None):
                raise self.handling[-1]
            raise PyRaise(RuntimeError, "No active exception to reraise", self.site)
        site = self.site
        v = self.eval(s.exc, env)
        self.site = site
        raise self.mk_exc(v)

    def mk_exc(self, v):
        if isinstance(v, type) and issubclass(v, BaseException):
            return PyRaise(v, "", self.site)
        if isinstance(v, BaseException):
            return PyRaise(type(v), str(v), self.site)
        if isinstance(v, ClassV):
            v = self.call(v, [], {})
        if isinstance(v, Obj):
            return PyRaise(v.cls, "", self.site, v)
        if isinstance(v, PyRaise):
            return v
        if isinstance(v, Top):
            return PyRaise(Exception, "unknown exception", self.site)
        raise Unsupported("raise of %r" % (v,))

    def exc_match(self, pr, t):
        if isinstance(t, tuple):
            return any(self.exc_match(pr, x) for x in t)
        if isinstance(pr.exc, ClassV):
            if isinstance(t, ClassV):
                return t in pr.exc.mro
            return any(isinstance(b, type) and issubclass(b, t) for b in pr.exc.native_bases()) if isinstance(t, type) else False
        if isinstance(t, type):
            return issubclass(pr.exc, t)
        if isinstance(t, Top):
            raise Undecided("unknown exception type in handler")
        return False

    def s_Try(self, s, env):
        try:
            try:
                self.exec_body(s.body, env)
            except PyRaise as pr:
                for h in s.handlers:
                    if h.type is None or self.exc_match(pr, self.eval(h.type, env)):
                        if h.name:
                            self.store(h.name, pr, env)
                        self.handling = getattr(self, "handling", []) + [pr]
                        try:
                            self.exec_body(h.body, env)
                        finally:
                            self.handling = self.handling[:-1]
                        break
                else:
                    raise
            else:
                self.exec_body(s.orelse, env)
        finally:
            # analyser-internal exceptions also pass here; harmless
            if s.finalbody:
                self.exec_body(s.finalbody, env)

    def s_With(self, s, env):
        self._with(list(s.items), s.body, env)

    def _with(self, items, body, env):
        if not items:
            self.exec_body(body, env)
            return
        it, rest = items[0], items[1:]
        c = self.eval(it.context_expr, env)

        def inner(v):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
            self._with(rest, body, env)
        self.run_ctx(c, inner)

    def run_ctx(self, c, inner):
        """Run ``inner`` with what the context manager yields, inside it."""
        if isinstance(c, CtxGen):
            pend, ran = [], []

            def at_yield(v):
                if ran:
                    raise PyRaise(RuntimeError, "generator didn't stop", self.site)
                ran.append(True)
                try:
                    inner(v)
                except (_Return, _Break, _Continue) as x:
                    pend.append(x)
            self.ctx_next = at_yield
            self.call(c.f, c.args, c.kw)
            if not ran:
                raise PyRaise(RuntimeError, "generator didn't yield", self.site)
            if pend:
                raise pend[0]
            return
        if isinstance(c, Suppress):
            try:
                inner(None)
            except PyRaise as p:
                if not any(self.exc_match(p, k) for k in c.kinds):
                    raise
            return
        if isinstance(c, Builtin) and c.name == "ctx":
            inner(c.fn(self, [], {}))
            return
        if isinstance(c, ExitStackV):
            def unwind(i):
                if i:
                    try:
                        unwind(i - 1)
                    finally:
                        c.todo[i - 1](self)
                    return
                inner(c)

            def run():
                try:
                    inner(c)
                finally:
                    while c.todo:
                        c.todo.pop()(self)
            run()
            return
        if isinstance(c, Obj):
            m, _ = c.cls.lookup("__enter__")
            x, _ = c.cls.lookup("__exit__")
            if m is None or x is None:
                if any(isinstance(b, (Top, NType)) for b in c.cls.native_bases()):
                    raise Unsupported("context manager %s" % c.cls.name)
                raise PyRaise(TypeError, "object does not support the context manager protocol", self.site)
            v = self.call(Bound(m, c), [], {})
            try:
                inner(v)
            except PyRaise as p:
                e = p.value if getattr(p, "value", None) is not None else p
                if not self.truth(self.call(Bound(x, c), [p.exc, e, None], {})):
                    raise
            except (_Return, _Break, _Continue):
                self.call(Bound(x, c), [None, None, None], {})
                raise
            else:
                self.call(Bound(x, c), [None, None, None], {})
            return
        if c is None or isinstance(c, (int, float, str, list, tuple, ADict, A, Q, U.Unit)):
            raise PyRaise(TypeError, "object does not support the context manager protocol", self.site)
        inner(c)

    def s_Assert(self, s, env):
        if not self.truth(self.eval(s.test, env)):
            raise PyRaise(AssertionError, "", self.site)

    def s_Match(self, s, env):
        v = self.eval(s.subject, env)
        for c in s.cases:
            if self.match(c.pattern, v, env) and (c.guard is None or self.truth(self.eval(c.guard, env))):
                self.exec_body(c.body, env)
                return

    def match(self, p, v, env):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare1("Eq", v, self.eval(p.value, env)))
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, env):
                return False
            if p.name:
                self.store(p.name, v, env)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match(x, v, env) for x in p.patterns)
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return self.truth(self.lib.isinstance_(self, v, self.eval(p.cls, env)))
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, (list, tuple)):
                if isinstance(v, (A, Q, Top)):
                    raise Unsupported("match pattern")
                return False
            st = [i for i, x in enumerate(p.patterns) if isinstance(x, ast.MatchStar)]
            if not st:
                return len(v) == len(p.patterns) and all(self.match(x, y, env) for x, y in zip(p.patterns, v))
            i, n = st[0], len(p.patterns)
            if len(v) < n - 1:
                return False
            tail = n - 1 - i
            if p.patterns[i].name:
                self.store(p.patterns[i].name, list(v[i:len(v) - tail]), env)
            return all(self.match(x, y, env) for x, y in zip(p.patterns[:i], v[:i])) and \
                all(self.match(x, y, env) for x, y in zip(p.patterns[i + 1:], v[len(v) - tail:]))
        raise Unsupported("match pattern")

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.store(t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Top):
                for e in t.elts:
                    self.assign(e.value if isinstance(e, ast.Starred) else e, Top("unpack"), env)
                return
            vals = list(self.iterate(v))
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                k = star[0]
                after = len(t.elts) - k - 1
                if len(vals) < len(t.elts) - 1:
                    raise PyRaise(ValueError, "not enough values to unpack", self.site)
                parts = vals[:k] + [vals[k:len(vals) - after]] + (vals[len(vals) - after:] if after else [])
                for e, x in zip(t.elts, parts):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, env)
                return
            if len(vals) != len(t.elts):
                raise PyRaise(ValueError, "too many values to unpack" if len(vals) > len(t.elts)
                              else "not enough values to unpack (expected %d, got %d)" % (len(t.elts), len(vals)), self.site)
            for e, x in zip(t.elts, vals):
                self.assign(e, x, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            self.setitem(o, self.eval_index(t.slice, env), v)
        else:
            raise Unsupported("assign target")

    # ------------------------------------------------------------ expressions
    def eval(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__)
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        return self.load(e.id, env)

    def e_Tuple(self, e, env):
        return tuple(self._elts(e.elts, env))

    def e_List(self, e, env):
        return self._elts(e.elts, env)

    def e_Set(self, e, env):
        return self.lib.mkset(self, self._elts(e.elts, env))

    def _elts(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.eval(x.value, env)))
            else:
                out.append(self.eval(x, env))
        return out

    def e_Dict(self, e, env):
        d = ADict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.lib.dict_update(self, d, self.eval(v, env))
            else:
                kk = self.eval(k, env)
                self.dict_set(d, kk, self.eval(v, env))
        return d

    def e_Starred(self, e, env):
        raise Unsupported("starred")

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        t = env
        while getattr(t, "cls", None) == "<comp>" and t.parent is not None:
            t = t.parent
        self.store(e.target.id, v, t)
        return v

    def e_Attribute(self, e, env):
        o = self.eval(e.value, env)
        self.site = (self.stack[-1][0] if self.stack else "?", e.lineno, self.stack[-1][1] if self.stack else "?")
        return self.getattr(o, e.attr)

    def e_Subscript(self, e, env):
        o = self.eval(e.value, env)
        if isinstance(o, (ClassV, NType)) or (isinstance(o, Builtin) and o.name in ("list", "dict", "tuple", "set", "type")):
            return o
        if isinstance(o, Top) and isinstance(o.why, str) and o.why.startswith("typing"):
            return o
        if isinstance(o, type):
            return o
        k = self.eval_index(e.slice, env)
        self.site = (self.stack[-1][0] if self.stack else "?", e.lineno, self.stack[-1][1] if self.stack else "?")
        return self.getitem(o, k)

    def eval_index(self, s, env):
        return self.eval(s, env)

    def e_Slice(self, e, env):
        return slice(None if e.lower is None else self.eval(e.lower, env),
                     None if e.upper is None else self.eval(e.upper, env),
                     None if e.step is None else self.eval(e.step, env))

    def e_BinOp(self, e, env):
        a = self.eval(e.left, env)
        b = self.eval(e.right, env)
        self.site = (self.stack[-1][0] if self.stack else "?", e.lineno, self.stack[-1][1] if self.stack else "?")
        self.node = e
        return self.binop(type(e.op).__name__, a, b)

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        op = type(e.op).__name__
        if op == "Not":
            if isinstance(v, A) and v.shape == () and v.dtype == "b1" and v.lo != v.hi:
                return dom.bnot(v)
            return not self.truth(v)
        return self.lib.unary(self, op, v)

    def e_BoolOp(self, e, env):
        is_and = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, env)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if is_and and not t:
                return v if not _undec(v) else False
            if not is_and and t:
                return v if not _undec(v) else True
        return v

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        res = None
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(c, env)
            self.site = (self.stack[-1][0] if self.stack else "?", e.lineno, self.stack[-1][1] if self.stack else "?")
            self.gsite = (self.site[0], e.lineno, e.col_offset, i)
            res = self.compare1(type(op).__name__, left, right)
            if i < len(e.ops) - 1:
                if not self.truth(res):
                    return False
            left = right
        return res

    def e_IfExp(self, e, env):
        return self.eval(e.body if self.truth(self.eval(e.test, env)) else e.orelse, env)

    def e_Lambda(self, e, env):
        return self.make_func(e, env)

    def e_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, env)
                spec = ""
                if v.format_spec is not None:
                    spec = self.e_JoinedStr(v.format_spec, env)
                    if not isinstance(spec, str):
                        raise Unsupported("format spec")
                if v.conversion in (114, 115):
                    parts.append(self.lib.to_str(self, x))
                else:
                    parts.append(self.lib.format_(self, x, spec))
        return self.lib.join_parts(parts)

    def e_FormattedValue(self, e, env):
        return self.e_JoinedStr(ast.JoinedStr(values=[e]), env)

    def _comp(self, gens, env, fn):
        ce = Env(env, env.globals)
        ce.cls = None

        def rec(i, en):
            if i == len(gens):
                fn(en)
                return
            g = gens[i]
            it = self.eval(g.iter, en if i else env)
            for x in self.iterate(it):
                self.assign(g.target, x, en)
                if all(self.truth(self.eval(c, en)) for c in g.ifs):
                    rec(i + 1, en)
        rec(0, ce)

    def e_ListComp(self, e, env):
        out = []
        self._comp(e.generators, env, lambda en: out.append(self.eval(e.elt, en)))
        return out

    def e_GeneratorExp(self, e, env):
        return AIter(self.e_ListComp(e, env))

    def lazy(self, which, e, env, default):
        """any(...), all(...) and next(...) of a generator expression stop at the deciding element."""
        def fn(en):
            v = self.eval(e.elt, en)
            if which == "next":
                raise _Return(v)
            if self.truth(v) == (which == "any"):
                raise _Return(which == "any")
        try:
            self._comp(e.generators, env, fn)
        except _Return as r:
            return r.v
        if which != "next":
            return which == "all"
        if not default:
            raise PyRaise(StopIteration, "", self.site)
        return default[0]

    def e_SetComp(self, e, env):
        return self.lib.mkset(self, self.e_ListComp(e, env))

    def e_DictComp(self, e, env):
        d = ADict()
        self._comp(e.generators, env, lambda en: self.dict_set(d, self.eval(e.key, en), self.eval(e.value, en)))
        return d

    def e_Yield(self, e, env):
        v = None if e.value is None else self.eval(e.value, env)
        en = env
        while en is not None and "$yield" not in en.vars:
            en = en.parent
        if "$ctx" in en.vars:
            en.vars["$ctx"](v)
            return None
        en.vars["$yield"].append(v)
        return None

    def e_YieldFrom(self, e, env):
        src = self.eval(e.value, env)
        for v in self.iterate(src):
            en = env
            while en is not None and "$yield" not in en.vars:
                en = en.parent
            if "$ctx" in en.vars:
                raise Unsupported("yield from in a context manager")
            en.vars["$yield"].append(v)
        return getattr(src, "result", None)

    def e_Call(self, e, env):
        # super() needs the enclosing frame
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in env.globals:
            args = [self.eval(a, env) for a in e.args]
            if args:
                return SuperV(args[0], args[1])
            en = env
            while en is not None and en.func is None:
                en = en.parent
            f = en.func
            a0 = (f.node.args.posonlyargs + f.node.args.args)[0].arg
            return SuperV(f.cls, en.vars[a0])
        f = self.eval(e.func, env)
        if e.args and isinstance(e.args[0], ast.GeneratorExp) and isinstance(f, Builtin) and f.name in ("any", "all", "next") \
                and f is self.builtins[f.name] and not e.keywords and len(e.args) <= (2 if f.name == "next" else 1):
            d = [self.eval(a, env) for a in e.args[1:]]
            return self.lazy(f.name, e.args[0], env, d)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.eval(a.value, env)))
            else:
                args.append(self.eval(a, env))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, env)
                if not isinstance(d, ADict):
                    raise Unsupported("** of non dict")
                for kk, vv in d.items_:
                    if not isinstance(kk, str):
                        raise PyRaise(TypeError, "keywords must be strings", self.site)
                    kw[kk] = vv
            else:
                kw[k.arg] = self.eval(k.value, env)
        self.site = (self.stack[-1][0] if self.stack else "?", e.lineno, self.stack[-1][1] if self.stack else "?")
        return self.call(f, args, kw)

    # ------------------------------------------------------------ calls
    ctx_next = None

    def call(self, f, args, kw):
        self.calls += 1
        if isinstance(f, FuncV):
            return self.call_func(f, args, kw)
        if isinstance(f, Bound):
            g = f.func
            if isinstance(g, Memo):
                return self.call_memo(g, [f.self_] + list(args), kw)
            return self.call(g, [f.self_] + list(args), kw)
        if isinstance(f, Builtin):
            return f.fn(self, args, kw)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kw)
        if isinstance(f, NType):
            if f.ctor is None:
                raise Unsupported("construct %s" % f.name)
            return f.ctor(self, args, kw)
        if isinstance(f, Memo):
            return self.call_memo(f, args, kw)
        if isinstance(f, Partial):
            return self.call(f.f, list(f.args) + list(args), {**f.kw, **kw})
        if isinstance(f, (StaticM, ClassM)):
            return self.call(f.f, args, kw)
        if isinstance(f, type) and issubclass(f, BaseException):
            msg = args[0] if args and isinstance(args[0], str) else ""
            return f(msg)
        if isinstance(f, Obj):
            m, _ = f.cls.lookup("__call__")
            if m is not None:
                return self.call(Bound(m, f), args, kw)
            raise PyRaise(TypeError, "%r object is not callable" % f.cls.name, self.site)
        if isinstance(f, Top):
            if any(_mutable(a) for a in list(args) + list(kw.values())):
                self.tainted = "passes a mutable object to unknown %s" % f.why
            return Top("call %s" % f.why)
        if isinstance(f, U.Unit) or f is None or isinstance(f, (int, float, str, A, Q, list, tuple, ADict)):
            raise PyRaise(TypeError, "object is not callable", self.site)
        raise Unsupported("call of %r" % (f,))

    def call_memo(self, m, args, kw):
        for a in list(args) + list(kw.values()):
            self.check_hashable(a)
        for (ka, kk, v) in m.table:
            if len(ka) == len(args) and set(kk) == set(kw):
                ok = True
                for x, y in zip(ka, args):
                    if not self.key_eq(x, y):
                        ok = False
                        break
                if ok and all(self.key_eq(kk[n], kw[n]) for n in kw):
                    return v
        v = self.call(m.f, list(args), dict(kw))
        m.table.append((list(args), dict(kw), v))
        if m.maxsize is not None and len(m.table) > m.maxsize:
            m.table.pop(0)
        return v

    def check_hashable(self, v):
        if isinstance(v, (list, ADict, ASet)):
            raise PyRaise(TypeError, "unhashable type", self.site)
        if isinstance(v, A) and not v.scalar:
            raise PyRaise(TypeError, "unhashable type: 'numpy.ndarray'", self.site)
        if isinstance(v, Q) and v.shape != ():
            raise PyRaise(TypeError, "unhashable type: 'numpy.ndarray'", self.site)
        if isinstance(v, Obj):
            for c in v.cls.mro:
                if "__hash__" in c.ns:
                    if c.ns["__hash__"] is None:
                        raise PyRaise(TypeError, "unhashable type", self.site)
                    return
                if "__eq__" in c.ns:
                    raise PyRaise(TypeError, "unhashable type: %r" % v.cls.name, self.site)
        if isinstance(v, tuple):
            for x in v:
                self.check_hashable(x)

    def key_eq(self, a, b):
        """Dictionary-key equality (hash then ==)."""
        if a is b:
            return True
        r = self.lib.key_equal(self, a, b)
        if r is None:
            return self.decide(None)
        return r

    def instantiate(self, c, args, kw):
        for b in c.native_bases():
            if isinstance(b, Builtin) and b.name == "object":
                continue
            if isinstance(b, type) and issubclass(b, BaseException):
                o = Obj(c)
                o.native = b
                ini, _ = c.lookup("__init__")
                if ini is not None:
                    self.call(Bound(ini, o), args, kw)
                else:
                    o.attrs["args"] = tuple(args)
                return o
            if isinstance(b, NType) and b.name == "NamedTuple":
                o = Obj(c)
                self.lib.dataclass_init(self, c, o, args, kw)
                return NT([o.attrs[n] for n in o.attrs], o.attrs, c.name, c)
            if isinstance(b, NType) and b.name == "IntEnum":
                raise Unsupported("base %s" % b.name)
            if isinstance(b, NType) and b.name == "Enum":
                for m in c.ns.get("$members", []):
                    if m is args[0] or self.truth(self.compare1("Eq", m.attrs["value"], args[0])):
                        return m
                raise PyRaise(ValueError, "%r is not a valid %s" % (args[0], c.name), self.site)
        o = Obj(c)
        new, _ = c.lookup("__new__")
        if new is not None:
            o = self.call(new.f if isinstance(new, StaticM) else new, [c] + list(args), kw)
            if not isinstance(o, Obj):
                return o
        ini, _ = c.lookup("__init__")
        if ini is not None:
            self.call(Bound(ini, o), args, kw)
        elif c.ns.get("$dataclass") or any("$dataclass" in k.ns for k in c.mro):
            self.lib.dataclass_init(self, c, o, args, kw)
        elif (args or kw) and not any(isinstance(b, Top) for b in c.native_bases()) and \
                not any(isinstance(b, NType) for b in c.native_bases()):
            raise PyRaise(TypeError, "%s() takes no arguments" % c.name, self.site)
        return o

    def bind(self, f, args, kw):
        a = f.node.args
        pos = a.posonlyargs + a.args
        vals = {}
        kw = dict(kw)
        n = len(pos)
        if len(args) > n and a.vararg is None:
            raise PyRaise(TypeError, "%s() takes %d positional arguments but %d were given" % (f.name, n, len(args)), self.site)
        for p, v in zip(pos, args):
            vals[p.arg] = v
        if a.vararg is not None:
            vals[a.vararg.arg] = tuple(args[n:])
        nd = len(f.defaults)
        for i, p in enumerate(pos):
            if p.arg in kw and p not in a.posonlyargs:
                if p.arg in vals:
                    raise PyRaise(TypeError, "%s() got multiple values for argument %r" % (f.name, p.arg), self.site)
                vals[p.arg] = kw.pop(p.arg)
            elif p.arg not in vals:
                j = i - (n - nd)
                if j >= 0:
                    vals[p.arg] = f.defaults[j]
                else:
                    raise PyRaise(TypeError, "%s() missing required argument: %r" % (f.name, p.arg), self.site)
        for p in a.kwonlyargs:
            if p.arg in kw:
                vals[p.arg] = kw.pop(p.arg)
            elif p.arg in f.kwdefaults:
                vals[p.arg] = f.kwdefaults[p.arg]
            else:
                raise PyRaise(TypeError, "%s() missing keyword-only argument: %r" % (f.name, p.arg), self.site)
        if a.kwarg is not None:
            d = ADict()
            d.items_ = [[k, v] for k, v in kw.items()]
            vals[a.kwarg.arg] = d
        elif kw:
            raise PyRaise(TypeError, "%s() got an unexpected keyword argument %r" % (f.name, next(iter(kw))), self.site)
        return vals

    def check_units(self, f, vals):
        """u.quantity_input: the named arguments have to be of the declared kind"""
        want = {n: x for n, x in f.qinput.items() if n not in ("equivalencies", "strict_dimensionless")}
        a = f.node.args
        for p in a.posonlyargs + a.args + a.kwonlyargs:
            if p.annotation is not None and p.arg not in want:
                try:
                    x = self.eval(p.annotation, f.env or Env(None, f.globals))
                except PyRaise:
                    continue
                if isinstance(x, self.lib.U.Unit):
                    want[p.arg] = x
        for n, x in want.items():
            v = vals.get(n)
            if not isinstance(x, self.lib.U.Unit) or v is None or isinstance(v, Top):
                continue
            if not isinstance(v, Q):
                if x.is_dimless() and isinstance(v, (int, float, A)):
                    continue
                raise PyRaise(TypeError, "Argument %r to function %r has no 'unit' attribute" % (n, f.name), self.site)
            if v.unit.dims != x.dims:
                raise PyRaise(self.lib.U.UnitsError, "Argument %r to function %r must be in units convertible to %r" % (
                    n, f.name, x.to_string()), self.site)

    def call_func(self, f, args, kw):
        if self.ctx is not None and self.stack and "/scen/" in self.stack[-1][0] and "/scen/" not in f.module:
            self.ctx.entry = (f.module, getattr(f.node, "lineno", 0), f.qualname)
        h = self.hooks.get(f.qualname)
        if h is not None:
            h(self, f, args, kw)
        vals = self.bind(f, args, kw)
        if getattr(f, "qinput", None) is not None:
            self.check_units(f, vals)
        if len(self.stack) > MAX_DEPTH:
            raise Undecided("recursion depth")
        env = Env(f.env, f.globals, f)
        env.vars.update(vals)
        self.funcs.add((f.module, f.qualname))
        saved = self.site
        self.stack.append((f.module, f.qualname))
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, env)
            if _is_gen(f.node):
                env.vars["$yield"] = AIter()
                if self.ctx_next is not None:
                    env.vars["$ctx"], self.ctx_next = self.ctx_next, None
                try:
                    self.exec_body(f.node.body, env)
                except _Return as r:
                    env.vars["$yield"].result = r.v
                return env.vars["$yield"]
            try:
                self.exec_body(f.node.body, env)
            except _Return as r:
                return r.v
            return None
        finally:
            self.stack.pop()
            self.site = saved

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name, default=_bi):
        try:
            return self._getattr(o, name)
        except PyRaise as p:
            if default is not _bi and isinstance(p.exc, type) and issubclass(p.exc, AttributeError):
                return default
            raise

    def _getattr(self, o, name):
        if isinstance(o, Obj):
            v, c = o.cls.lookup(name)
            if isinstance(v, Prop):
                if v.cached:
                    if name in o.attrs:
                        return o.attrs[name]
                    r = self.call(v.fget, [o], {})
                    o.attrs[name] = r
                    return r
                return self.call(v.fget, [o], {})
            if name in o.attrs:
                return o.attrs[name]
            if v is not None or c is not None:
                return self.bindattr(v, o, o.cls)
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return attr_dict(o.attrs)
            g, _ = o.cls.lookup("__getattr__")
            if g is not None:
                return self.call(Bound(g, o), [name], {})
            for b in o.cls.native_bases():
                if isinstance(b, Top) or isinstance(b, NType):
                    return Top("%s.%s" % (o.cls.name, name))
            if hasattr(object, name) or name in ("__module__", "__weakref__", "__slots__", "__annotations__"):
                return Top("%s.%s" % (o.cls.name, name))
            raise PyRaise(AttributeError, "%r object has no attribute %r" % (o.cls.name, name), self.site)
        if isinstance(o, ModV):
            return self.mod_attr(o, name)
        if isinstance(o, ClassV):
            v, c = o.lookup(name)
            if c is not None:
                if isinstance(v, ClassM):
                    return Bound(v.f, o)
                if isinstance(v, StaticM):
                    return v.f
                return v
            if name == "__name__" or name == "__qualname__":
                return o.name
            if name == "__mro__":
                return tuple(o.mro)
            if hasattr(type, name) or name in ("__module__", "__annotations__", "__weakref__") or any(
                    isinstance(b, (Top, NType)) for b in o.native_bases()):
                return Top("%s.%s" % (o.name, name))
            raise PyRaise(AttributeError, "type object %r has no attribute %r" % (o.name, name), self.site)
        if isinstance(o, SuperV):
            cls = o.obj.cls if isinstance(o.obj, Obj) else o.obj
            mro = cls.mro
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if name in c.ns:
                    v = c.ns[name]
                    if isinstance(v, Prop):
                        return self.call(v.fget, [o.obj], {})
                    return self.bindattr(v, o.obj, cls)
            if name == "__init__":
                return Builtin("object.__init__", lambda it, a, k: None)
            if name == "__setattr__":
                return Builtin("object.__setattr__", lambda it, a, k: o.obj.attrs.__setitem__(a[0], a[1]))
            if any(isinstance(b, (Top, NType)) for b in cls.native_bases()):
                return Top("super.%s" % name)
            if hasattr(object, name):
                return Top("super.%s" % name)
            raise PyRaise(AttributeError, "'super' object has no attribute %r" % name, self.site)
        if isinstance(o, NT):
            if name in o.fields:
                return o[o.fields.index(name)]
            if name == "_fields":
                return o.fields
            if name == "_asdict":
                return Builtin("_asdict", lambda it, a, k: attr_dict(dict(zip(o.fields, o))))
            if name == "_replace":
                return Builtin("_replace", lambda it, a, k: NT(
                    [k.get(f, v) for f, v in zip(o.fields, o)], o.fields, o.name, o.klass))
            if o.klass is not None:
                v, c = o.klass.lookup(name)
                if isinstance(v, Prop):
                    return self.call(v.fget, [o], {})
                if c is not None:
                    return self.bindattr(v, o, o.klass)
        if isinstance(o, Top):
            return Top("%s.%s" % (o.why, name))
        if isinstance(o, Memo):
            if name == "cache_clear":
                return Builtin("cache_clear", lambda it, a, k: o.table.clear())
            if name == "__wrapped__":
                return o.f
        if isinstance(o, Prop):
            if name == "setter":
                return Builtin("setter", lambda it, a, k: Prop(o.fget, a[0], o.fdel, o.cached))
            if name == "getter":
                return Builtin("getter", lambda it, a, k: Prop(a[0], o.fset, o.fdel, o.cached))
            if name == "deleter":
                return Builtin("deleter", lambda it, a, k: Prop(o.fget, o.fset, a[0], o.cached))
            if name in ("fget", "fset"):
                return getattr(o, name)
        if isinstance(o, FuncV):
            if name in o.attrs:
                return o.attrs[name]
            if name in ("__name__", "__qualname__"):
                return o.name
            if name == "__doc__":
                return None
        if isinstance(o, Bound):
            if name == "__func__":
                return o.func
            if name == "__self__":
                return o.self_
            return self._getattr(o.func, name)
        return self.lib.attr(self, o, name)

    def bindattr(self, v, o, cls):
        if isinstance(v, (FuncV, Memo, Builtin)) and not (isinstance(v, Builtin) and v.name == "nobind"):
            if isinstance(v, Builtin) and not getattr(v, "binds", False):
                return v
            return Bound(v, o)
        if isinstance(v, StaticM):
            return v.f
        if isinstance(v, ClassM):
            return Bound(v.f, cls)
        return v

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            d, _ = o.cls.lookup(name)
            if isinstance(d, Prop) and not d.cached:
                if d.fset is None:
                    raise PyRaise(AttributeError, "property %r of %r object has no setter" % (name, o.cls.name), self.site)
                self.call(d.fset, [o, v], {})
                return
            sa, _ = o.cls.lookup("__setattr__")
            if sa is not None and not getattr(self, "_in_setattr", False):
                self.call(Bound(sa, o), [name, v], {})
                return
            o.attrs[name] = v
            return
        if isinstance(o, ClassV):
            o.ns[name] = v
            return
        if isinstance(o, ModV):
            o.ns[name] = v
            return
        if isinstance(o, FuncV):
            o.attrs[name] = v
            return
        if isinstance(o, Bound) and isinstance(o.func, FuncV):
            raise PyRaise(AttributeError, name, self.site)
        if isinstance(o, Top):
            return
        if isinstance(o, A) and name == "shape":
            n = dom.reshape(o, v)
            o.lo, o.hi, o.nan, o.t = n.lo, n.hi, n.nan, n.t
            return
        raise Unsupported("setattr on %r" % (o,))

    # ------------------------------------------------------------ items
    def dict_find(self, d, k):
        for i, kv in enumerate(d.items_):
            if kv[0] is k:
                return i
        # definite hits first, so that an undecided earlier key does not fork
        maybe = []
        for i, kv in enumerate(d.items_):
            r = self.lib.key_equal(self, kv[0], k)
            if r is True:
                return i
            if r is None:
                maybe.append(i)
        for i in maybe:
            if self.decide(None):
                return i
        return -1

    def dict_set(self, d, k, v):
        self.check_hashable(k)
        i = self.dict_find(d, k)
        if i >= 0:
            d.items_[i][1] = v
        else:
            d.items_.append([k, v])

    def getitem(self, o, k):
        if type(o).__name__ == "Grid":
            return o.get(self, k)
        if isinstance(o, ADict):
            self.check_hashable(k)
            i = self.dict_find(o, k)
            if i >= 0:
                return o.items_[i][1]
            if o.factory == "$counter":
                return 0
            if o.factory is not None:
                v = self.call(o.factory, [], {})
                o.items_.append([k, v])
                return v
            raise PyRaise(KeyError, "%s" % (k,), self.site)
        if isinstance(o, AIter):
            raise PyRaise(TypeError, "'generator' object is not subscriptable", self.site)
        if isinstance(o, (list, tuple, str, range)):
            k = dom.concrete_index(k) if isinstance(k, (A, slice)) else k
            if isinstance(k, Top):
                raise Undecided("unknown index")
            if isinstance(k, Obj) and k.cls.lookup("__index__")[0] is not None:
                k = self.lib.as_int(self, k)
            if not isinstance(k, (int, slice)):
                raise PyRaise(TypeError, "indices must be integers or slices, not %s" % type(k).__name__, self.site)
            try:
                return o[k]
            except IndexError as x:
                raise PyRaise(IndexError, str(x), self.site)
        if type(o).__name__ == "KeyV" and k in (0, 1, -1, -2):
            return o.seed if k in (1, -1) else 0      # a legacy key is the pair (high word, low word) of its seed
        if isinstance(o, A):
            if o.shape == () and o.scalar and not (k == () or k is Ellipsis):
                raise PyRaise(TypeError, "object is not subscriptable" if o.py else "invalid index to scalar variable.", self.site)
            if isinstance(k, str):
                raise PyRaise(IndexError, "only integers, slices...", self.site)
            return dom.getitem(o, self._ixconv(k))
        if isinstance(o, Q):
            if isinstance(k, str):
                raise PyRaise(IndexError, "only integers, slices...", self.site)
            if o.shape == () and not (k == () or k is Ellipsis or k is None):
                raise PyRaise(TypeError, "'Quantity' object with a scalar value does not support indexing", self.site)
            r = dom.getitem(o.v, self._ixconv(k))
            return Q(r, o.unit)
        if isinstance(o, Obj):
            m, _ = o.cls.lookup("__getitem__")
            if m is not None:
                return self.call(Bound(m, o), [k], {})
            raise PyRaise(TypeError, "%r object is not subscriptable" % o.cls.name, self.site)
        if isinstance(o, Top):
            return Top("%s[]" % o.why)
        if o is None or isinstance(o, (int, float, bool)):
            raise PyRaise(TypeError, "object is not subscriptable", self.site)
        raise Unsupported("subscript of %r" % (o,))

    def _ixconv(self, k):
        if isinstance(k, tuple):
            return tuple(self._ixconv(x) for x in k)
        if isinstance(k, list):
            return self.lib.arr(self, k) if k else []
        if isinstance(k, Q):
            raise PyRaise(IndexError, "only integers, slices", self.site)
        if isinstance(k, Top):
            raise Undecided("unknown index")
        return k

    def setitem(self, o, k, v):
        if isinstance(o, ADict):
            self.dict_set(o, k, v)
            return
        if isinstance(o, list):
            k = dom.concrete_index(k) if isinstance(k, (A, slice)) else k
            if isinstance(k, Top):
                raise Undecided("unknown index")
            try:
                if isinstance(k, slice):
                    o[k] = list(self.iterate(v))
                else:
                    o[k] = v
            except (IndexError, TypeError) as x:
                raise PyRaise(type(x), str(x), self.site)
            return
        if isinstance(o, A):
            if o.scalar:
                raise PyRaise(TypeError, "object does not support item assignment", self.site)
            v = self.lib.arr(self, v)
            if isinstance(v, Q):
                if not v.unit.is_dimless():
                    raise PyRaise(TypeError, "only dimensionless scalar quantities can be converted to Python scalars", self.site)
                v = self.lib.to_unit(self, v, U.ONE).v
            if isinstance(v, Top):
                raise Undecided("store of unknown")
            dom.setitem(o, self._ixconv(k), v)
            return
        if isinstance(o, Q):
            v = self.lib.arr(self, v)
            if isinstance(v, A):
                v = self.lib.plain_to(self, v, o.unit)
            elif isinstance(v, Q):
                v = self.lib.to_unit(self, v, o.unit).v
            else:
                raise Undecided("store of unknown")
            dom.setitem(o.v, self._ixconv(k), v)
            return
        if isinstance(o, Obj):
            m, _ = o.cls.lookup("__setitem__")
            if m is not None:
                self.call(Bound(m, o), [k, v], {})
                return
        if isinstance(o, (tuple, str, Obj)) or o is None:
            raise PyRaise(TypeError, "object does not support item assignment", self.site)
        if isinstance(o, Top):
            return
        raise Unsupported("item store")

    def delitem(self, o, k):
        if isinstance(o, ADict):
            i = self.dict_find(o, k)
            if i < 0:
                raise PyRaise(KeyError, str(k), self.site)
            del o.items_[i]
            return
        if isinstance(o, list):
            try:
                del o[dom.concrete_index(k)]
            except IndexError as x:
                raise PyRaise(IndexError, str(x), self.site)
            return
        raise Unsupported("del item")

    def iterate(self, v, live=False):
        if isinstance(v, AIter):
            if live:
                return _drain(v)
            r = list(v)
            v.clear()
            return r
        if isinstance(v, list):
            return _live(v) if live else list(v)
        if isinstance(v, (tuple, range, str)):
            return list(v)
        if isinstance(v, ADict):
            return v.keys()
        if isinstance(v, ASet):
            # the order of a set of hashed-by-identity or hash-randomised elements is arbitrary: it differs from run to run
            r = list(v.items_)
            if len(r) > 1 and any(_arbitrary_hash(x) for x in r):
                self.nsetiter = getattr(self, "nsetiter", 0) + 1
                if self.nsetiter % 2:
                    r.reverse()
            return r
        if isinstance(v, A):
            if v.shape == ():
                raise PyRaise(TypeError, "iteration over a 0-d array" if not v.py else "object is not iterable", self.site)
            return [dom.getitem(v, i) for i in range(v.shape[0])]
        if isinstance(v, Q):
            if v.shape == ():
                raise PyRaise(TypeError, "'Quantity' object with a scalar value is not iterable", self.site)
            return [Q(dom.getitem(v.v, i), v.unit) for i in range(v.shape[0])]
        if isinstance(v, Obj):
            m, _ = v.cls.lookup("__iter__")
            if m is not None:
                return self.iterate(self.call(Bound(m, v), [], {}))
            g, _ = v.cls.lookup("__getitem__")
            if g is None:
                raise PyRaise(TypeError, "%r object is not iterable" % v.cls.name, self.site)
            raise Unsupported("getitem iteration")
        if isinstance(v, Top):
            raise Undecided("iteration over unknown %s" % v.why)
        if v is None or isinstance(v, (int, float, bool, U.Unit)):
            raise PyRaise(TypeError, "%r object is not iterable" % type(v).__name__, self.site)
        raise Unsupported("iterate %r" % (v,))

    # ------------------------------------------------------------ operators
    def binop(self, op, a, b, inplace=False):
        return self.lib.binop(self, op, a, b, inplace)

    def compare1(self, op, a, b):
        return self.lib.compare(self, op, a, b)


def _arbitrary_hash(x):
    if isinstance(x, (Obj, str)):
        return True
    if isinstance(x, Q):      # the hash of a quantity includes that of its unit, which is made of strings
        return True
    return isinstance(x, tuple) and any(_arbitrary_hash(y) for y in x)


def _drain(lst):
    while lst:
        yield lst.pop(0)


def _live(lst):
    i = 0
    while i < len(lst):
        yield lst[i]
        i += 1


def _undec(v):
    return isinstance(v, (A, Top)) and not (isinstance(v, A) and np.array_equal(v.lo, v.hi))


def _mutable(v):
    return isinstance(v, (list, ADict, Obj, Q)) or (isinstance(v, A) and not v.scalar)

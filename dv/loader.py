"""Loads the code of /repo for symbolic execution.

The text that runs is the file in /repo, read on every run.  A mechanical
rewrite of its syntax tree is applied (nothing else is dropped or added):
  * floating point literals become exact decimal constants;
  * ``a / b`` and ``a ** b`` go through helpers so that integer operands stay
    exact;
  * ``while`` loops are cut by inferred invariants (see cut_while).
"""
import ast
import copy
import os
import types

from . import models, seqs, terms as tm, sym
from .sym import SReal, Unsupported

ALLOWED = {"typing", "abc", "enum", "copy", "functools", "itertools", "operator",
           "dataclasses", "collections", "collections.abc", "contextlib", "warnings",
           "os", "os.path", "pathlib", "re", "__future__", "types", "string", "inspect", "weakref", "numbers",
           "io", "textwrap", "sys"}


class Rewrite(ast.NodeTransformer):
    def __init__(self, prefix="_vf_"):
        self.lits = {}
        self.nloop = 0
        self.prefix = prefix
        self.loops = None        # enclosing loops of the current function (None outside functions)
        self.nfor = 0
        self.declared = set()    # names declared global or nonlocal

    def visit_Constant(self, n):
        if type(n.value) is float:
            import fractions
            v = n.value
            key = repr(v)
            if v != v or v in (float("inf"), float("-inf")):
                return n
            name = self.lits.setdefault(key, f"{self.prefix}lit_{len(self.lits)}")
            return ast.copy_location(ast.Name(name, ast.Load()), n)
        return n

    def visit_JoinedStr(self, n):
        # constants inside format specs must stay
        vals = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                v.value = self.visit(v.value)
            vals.append(v)
        n.values = vals
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, (ast.Div, ast.Pow)):
            f = "_vf_div" if isinstance(n.op, ast.Div) else "_vf_pow"
            return ast.copy_location(ast.Call(ast.Name(f, ast.Load()), [n.left, n.right], []), n)
        return n

    def visit_MatchValue(self, n):
        return n

    def visit_While(self, n):
        if self.loops is not None:
            self.loops.append(None)
        self.generic_visit(n)
        if self.loops is not None:
            self.loops.pop()
        return cut_while(self, n)

    # ---- lists, comprehensions and for loops (see seqs.py)
    def visit_FunctionDef(self, n):
        old, self.loops = self.loops, []
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        n.args.kw_defaults = [d and self.visit(d) for d in n.args.kw_defaults]
        out = []
        for x in n.body:
            r = self.visit(x)
            out += r if isinstance(r, list) else [r]
        n.body = out
        self.loops = old
        return n

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, n):
        old, self.loops = self.loops, []
        self.generic_visit(n)
        self.loops = old
        return n

    def visit_ClassDef(self, n):
        old, self.loops = self.loops, None
        self.generic_visit(n)
        self.loops = old
        return n

    def visit_AnnAssign(self, n):
        n.target = self.visit(n.target)
        if n.value is not None:
            n.value = self.visit(n.value)
        return n

    def visit_Global(self, n):
        self.declared |= set(n.names)
        return n

    visit_Nonlocal = visit_Global

    @staticmethod
    def call(f, *a):
        return ast.Call(ast.Name(f, ast.Load()), list(a), [])

    def display(self, n):
        return ast.copy_location(self.call("_vf_display", *[
            ast.Tuple([ast.Constant(isinstance(x, ast.Starred)), x.value if isinstance(x, ast.Starred) else x], ast.Load())
            for x in n.elts]), n)

    def visit_Tuple(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and any(isinstance(x, ast.Starred) for x in n.elts):
            return ast.copy_location(self.call("_vf_tuple", self.display(n)), n)
        return n

    def visit_Assign(self, n):
        t = n.targets[0]
        if len(n.targets) == 1 and isinstance(t, (ast.Tuple, ast.List)):
            at = [k for k, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if at:
                n.value = ast.copy_location(self.call("_vf_unpack", n.value, ast.Constant(at[0]),
                                                      ast.Constant(len(t.elts) - at[0] - 1)), n.value)
                t.elts[at[0]] = t.elts[at[0]].value
        self.generic_visit(n)
        return n

    def visit_List(self, n):
        self.generic_visit(n)
        if not isinstance(n.ctx, ast.Load):
            return n
        if any(isinstance(x, ast.Starred) for x in n.elts):
            return self.display(n)
        return ast.copy_location(self.call("_vf_list", n), n)

    def visit_ListComp(self, n):
        g = ast.copy_location(ast.GeneratorExp(n.elt, n.generators), n)
        return ast.copy_location(self.call("_vf_list", self.visit_GeneratorExp(g)), n)

    def visit_GeneratorExp(self, n):
        self.generic_visit(n)
        for g in n.generators:
            g.iter = ast.copy_location(self.call("_vf_iter", g.iter), g.iter)
        return ast.copy_location(self.call("_vf_gen", n), n)

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "join" and len(n.args) == 1 and not n.keywords \
                and not isinstance(n.args[0], ast.Starred):
            return ast.copy_location(self.call("_vf_join", n.func.value, n.args[0]), n)
        if isinstance(n.func, ast.Name) and n.func.id == "zip" and len(n.args) == 1 and isinstance(n.args[0], ast.Starred):
            n.args[0] = n.args[0].value
            n.args.insert(0, n.func)
            n.func = ast.Name("_vf_unzip", ast.Load())
        return n

    def visit_Yield(self, n):
        self.generic_visit(n)
        n.value = self.call("_vf_no_gen", n.value or ast.Constant(None))
        return n

    def visit_YieldFrom(self, n):
        self.generic_visit(n)
        n.value = self.call("_vf_no_gen", n.value)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if self.loops and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)) and \
                (isinstance(n.left, ast.Name) or isinstance(n.comparators[0], ast.Name)):
            c = self.call("_vf_same", n.left, n.comparators[0])
            if isinstance(n.ops[0], ast.IsNot):
                c = ast.UnaryOp(ast.Not(), c)
            return ast.copy_location(c, n)
        return n

    def leave(self, n, k):
        return [ast.copy_location(ast.Expr(self.call("_vf_leave", ast.Name(k, ast.Load()))), n), n]

    def visit_Break(self, n):
        if self.loops and self.loops[-1]:
            return self.leave(n, self.loops[-1])
        return n

    def visit_Return(self, n):
        self.generic_visit(n)
        ks = [k for k in self.loops or () if k]
        return self.leave(n, ks[0]) if ks else n

    def visit_For(self, n):
        if self.loops is None:
            self.generic_visit(n)
            return n
        if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == "range" and \
                len(n.iter.args) == 1 and not n.iter.keywords and isinstance(n.target, ast.Name) and left_early(n.body):
            return self.search_loop(n)
        return self.plain_for(n)

    def search_loop(self, n):
        """for i in range(n) that is left early: a long one is cut like a while loop (1.4), a short one runs as it is."""
        k = self.nfor
        self.nfor += 1
        loop = ast.While(test=ast.parse(f"_n_r{k} < _vf_r{k}", mode="eval").body,
                         body=ast.parse(f"{n.target.id} = _n_r{k}\n_n_r{k} = _n_r{k} + 1").body + copy.deepcopy(n.body),
                         orelse=copy.deepcopy(n.orelse))
        ast.copy_location(loop, n)
        for y in ast.walk(loop):
            if not hasattr(y, "lineno"):
                ast.copy_location(y, n)
        bound = self.visit(n.iter.args[0])
        n.iter.args = [ast.Name(f"_vf_r{k}", ast.Load())]
        pre = ast.parse(f"_vf_r{k} = 0\n_n_r{k} = 0\nif _vf_many(_vf_r{k}):\n pass\nelse:\n pass").body
        pre[0].value = bound
        out = self.visit_While(loop)
        pre[2].body = out if isinstance(out, list) else [out]
        pre[2].orelse = self.plain_for(n)
        for x in pre:
            for y in ast.walk(x):
                if not hasattr(y, "lineno"):
                    ast.copy_location(y, n)
            ast.copy_location(x, n)
            ast.fix_missing_locations(x)
        return pre

    def plain_for(self, n):
        k = f"_vf_d{self.nfor}"
        self.nfor += 1
        n.iter = ast.copy_location(self.call("_vf_iter", self.visit(n.iter)), n.iter)
        n.target = self.visit(n.target)
        self.loops.append(k)
        body = []
        for x in n.body:
            r = self.visit(x)
            body += r if isinstance(r, list) else [r]
        self.loops.pop()
        els = []
        for x in n.orelse:
            r = self.visit(x)
            els += r if isinstance(r, list) else [r]
        tg = assigned([ast.Assign([n.target], ast.Constant(None))])
        vs = [v for v in assigned(body) if v not in tg and v not in self.declared and not v.startswith("_vf_")]
        tg = [v for v in tg if v not in self.declared]
        src = "for _vf_x in y:\n"
        src += f" if _vf_inside({k}):\n  pass\n" + "".join(f"  {v} = _vf_hold(locals(), {v!r})\n" for v in vs)
        src += f" try:\n  pass\n finally:\n  if _vf_inside({k}):\n   pass\n"
        src += "".join(f"   {v} = _vf_release(locals(), {v!r})\n" for v in vs + tg)
        new = ast.parse(src).body[0]
        new.target, new.iter, new.orelse = n.target, n.iter, els
        new.body[1].body = body
        pre = ast.parse(f"{k} = _vf_depth()").body[0]
        for x in (pre, new):
            for y in ast.walk(x):
                if not hasattr(y, "lineno"):
                    ast.copy_location(y, n)
            ast.copy_location(x, n)
            ast.fix_missing_locations(x)
        return [pre, new]


def left_early(body):
    """Whether a loop with this body has a break or return of its own."""
    def inside(x, own):
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            return False
        if isinstance(x, ast.Return) or own and isinstance(x, ast.Break):
            return True
        if isinstance(x, (ast.For, ast.While)):
            return any(inside(y, False) for y in x.body) or any(inside(y, own) for y in x.orelse)
        return any(inside(y, own) for y in ast.iter_child_nodes(x))
    return any(inside(x, True) for x in body)


def many(n):
    return sym.RT is not None and isinstance(n, int) and n > 64


def assigned(nodes):
    out = []

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in out:
                out.append(n.id)

        def visit_FunctionDef(self, n):
            if n.name not in out:
                out.append(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp
    for x in nodes:
        V().visit(x)
    return out


def cut_while(rw, n):
    """while C: B  becomes

        __k = _vf_loop('id', locals snapshot)      # which case this path is
        if not __k.zero:
            (v1..vn) = __k.havoc(v1..vn)             # arbitrary iteration
        while-once C: B                              # at most one iteration
        __k.exit(C, values)

    The path either takes no iteration, or is the *last* iteration from an
    arbitrary state in which only variables found to be unchanged by every
    iteration (checked on separate paths) keep their entry value."""
    k = rw.nloop
    rw.nloop += 1
    vs = [v for v in assigned(n.body) if not v.startswith("_vf_")]
    lp = f"_vf_loopv{k}"

    def N(x, store=False):
        return ast.Name(x, ast.Store() if store else ast.Load())

    def snap():
        # dict of currently bound candidates
        return ast.parse("{k: v for k, v in locals().items()}", mode="eval").body

    src = []
    src.append(f"{lp} = _vf_loop({k!r}, {vs!r}, dict(locals()))")
    for v in vs:
        src.append(f"if {lp}.take({v!r}): {v} = {lp}.get({v!r})")
    pre = ast.parse("\n".join(src)).body
    loop = ast.While(
        test=ast.Call(ast.Attribute(N(lp), "test", ast.Load()),
                      [ast.Lambda(ast.arguments([], [], None, [], [], None, []), n.test),
                       ast.Call(N("dict"), [ast.Call(N("locals"), [], [])], [])], []),
        body=n.body, orelse=n.orelse)
    # evaluate the test with current locals: lambda closes over variables
    res = pre + [loop]
    for r in res:
        ast.copy_location(r, n)
        ast.fix_missing_locations(r)
    return res


class Loop:
    """Run-time side of a cut loop; see cut_while."""

    def __init__(self, key, names, env):
        self.key = key
        self.names = names
        self.rt = sym.RT
        self.entry = {k: env[k] for k in names if k in env}
        self.count = 0
        self.havoced = {}
        rt = self.rt
        self.active = rt is not None
        if not self.active:
            return
        # is the loop concrete?  decided at the first test
        self.mode = None
        self.inv = rt.state.setdefault("loop_inv", rt.loop_inv)

    def take(self, v):
        """called before the loop: decide the mode, say if v is replaced."""
        if not self.active:
            return False
        if self.mode is None:
            self.mode = ("zero", "last", "step")[self.rt.choose(3, f"loop {self.key}")]
            if self.mode != "zero":
                dead = self.inv.get(self.key, set())
                for n in self.names:
                    if n in dead:
                        self.havoced[n] = self.fresh(n)
        return v in self.havoced

    def fresh(self, n):
        e = self.entry.get(n, None)
        if n in self.entry:
            if isinstance(e, bool) or isinstance(e, sym.SBool):
                return sym.SBool.bvar(self.rt.name(f"{n}@loop"))
            if isinstance(e, int) or isinstance(e, float):
                return sym.fresh_real(f"{n}@loop" if type(e) is int else f"{n}@iter")
            raise Unsupported(f"loop variable {n} of type {type(e).__name__}")
        return sym.fresh_real(f"{n}@iter")

    def get(self, v):
        return self.havoced[v]

    def test(self, cond, env):
        if not self.active:
            return bool(cond())
        self.count += 1
        if self.mode == "zero":
            if bool(cond()):
                raise sym.PathAbort()
            return False
        if self.count == 1:
            if not bool(cond()):
                raise sym.PathAbort()
            return True
        # after one iteration from the generic state
        changed = self.changed(env)
        if changed:
            dead = self.inv.setdefault(self.key, set())
            if not changed <= dead:
                dead |= changed
                raise Restart()
        if self.mode == "step":
            raise sym.PathAbort()
        if bool(cond()):
            raise sym.PathAbort()
        return False

    def changed(self, env):
        out = set()
        dead = self.inv.get(self.key, set())
        for n in self.names:
            if n in dead or n not in env:
                continue
            if n not in self.entry:
                out.add(n)
                continue
            a, b = self.entry[n], env[n]
            if a is b:
                continue
            try:
                if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                    c = sym.compare("==", a, b)
                    if c is True:
                        continue
                    if isinstance(c, sym.SBool) and self.rt.prove(c, 2000)[0] == "proved":
                        continue
            except Unsupported:
                pass
            out.add(n)
        return out


class Restart(BaseException):
    """An invariant candidate was dropped: start this exploration again."""


HELPERS = {"_vf_div": models.r_div, "_vf_pow": models.r_pow, "_vf_loop": Loop, "_vf_many": many,
           "_vf_list": seqs.collect, "_vf_iter": seqs.walk, "_vf_gen": seqs.gen, "_vf_join": seqs.s_join,
           "_vf_no_gen": seqs.no_gen, "_vf_display": seqs.display, "_vf_tuple": seqs.s_tuple, "_vf_unpack": seqs.unpack, "_vf_unzip": seqs.unzip, "_vf_same": seqs.same, "_vf_leave": seqs.leave, "_vf_depth": seqs.depth,
           "_vf_inside": seqs.inside, "_vf_hold": seqs.hold, "_vf_release": seqs.release}


class Repo:
    """Fresh import of the repository packages for one path."""
    _code = {}

    def __init__(self, root):
        self.root = root
        seqs.ROOT[0] = os.path.join(root, "")
        self.mods = {}
        self.ext = models.make_modules(root)
        self.builtins = models.make_builtins()
        self.builtins["__import__"] = self.imp

    def find(self, name):
        p = os.path.join(self.root, *name.split("."))
        if os.path.isdir(p):
            q = os.path.join(p, "__init__.py")
            return q, True
        if os.path.isfile(p + ".py"):
            return p + ".py", False
        return None, False

    @classmethod
    def compile(cls, path, builtin_names=None):
        st = os.stat(path)
        key = (path, st.st_mtime_ns, st.st_size)
        r = cls._code.get(key)
        if r is None:
            src = open(path, encoding="utf8").read()
            r = cls.compile_src(src, path)
            cls._code[key] = r
        return r

    @classmethod
    def compile_src(cls, src, path, prefix="_vf_"):
        tree = ast.parse(src, path)
        rw = Rewrite(prefix)
        rw.file = path
        tree = rw.visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, path, "exec"), dict(rw.lits)

    def ns(self, lits):
        from fractions import Fraction
        d = {"__builtins__": self.builtins}
        d.update(HELPERS)
        for k, n in lits.items():
            d[n] = SReal(tm.num(Fraction(k)))
        return d

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        path, pkg = self.find(name)
        if path is None:
            raise ModuleNotFoundError(name)
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
            if name in self.mods:
                return self.mods[name]
        code, lits = self.compile(path)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition(".")[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__.update(self.ns(lits))
        self.mods[name] = m
        import sys
        exec(code, m.__dict__)
        if "." in name:
            par, _, ch = name.rpartition(".")
            if par in self.mods:
                setattr(self.mods[par], ch, m)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"]
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            name = pkg + ("." + name if name else "")
        if name in self.ext or name.split(".")[0] in ("numpy", "scipy", "importlib", "math"):
            if name not in self.ext:
                raise Unsupported(f"import of {name}")
            m = self.ext[name]
            if not fromlist and "." in name:
                return self.ext[name.split(".")[0]]
            return m
        if self.find(name)[0] is not None:
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and self.find(name + "." + f)[0]:
                        self.load(name + "." + f)
                return m
            return self.load(name.split(".")[0])
        if name in ALLOWED:
            return __import__(name, globals, locals, fromlist, 0)
        raise Unsupported(f"import of {name}")

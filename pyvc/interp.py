"""Symbolic executor for the Python subset used by the code under verification.

Executes the AST of the current source.  State = heap of immutable contents + path condition; branching on
a symbolic condition forks (with merging at the end of an if-statement where possible); loops with a symbolic
trip count are summarised by inferred closed forms that are re-executed once to check that they are inductive
(see loops.py).
"""
import ast
import builtins
import os
from fractions import Fraction
from . import terms as T, smt
MISSING = object()
from .terms import Term, TRUE, FALSE
from .values import *

EXC = {}
for _n, _b in [("BaseException", None), ("Exception", "BaseException"), ("ValueError", "Exception"), ("TypeError", "Exception"),
               ("KeyError", "LookupError"), ("IndexError", "LookupError"), ("LookupError", "Exception"), ("AttributeError", "Exception"),
               ("NameError", "Exception"), ("UnboundLocalError", "NameError"), ("AssertionError", "Exception"), ("RuntimeError", "Exception"),
               ("NotImplementedError", "RuntimeError"), ("ZeroDivisionError", "ArithmeticError"), ("ArithmeticError", "Exception"), ("OSError", "Exception"),
               ("FileNotFoundError", "OSError"), ("StopIteration", "Exception"), ("ImportError", "Exception"), ("ModuleNotFoundError", "ImportError"),
               ("OverflowError", "ArithmeticError"), ("Warning", "Exception"), ("UserWarning", "Warning"), ("UnicodeDecodeError", "ValueError"), ("LinAlgError", "Exception"), ("InvalidArgumentError", "Exception")]:
    EXC[_n] = ExcCls(_n)
for _n, _b in [("Exception", "BaseException"), ("ValueError", "Exception"), ("TypeError", "Exception"), ("LookupError", "Exception"),
               ("KeyError", "LookupError"), ("IndexError", "LookupError"), ("AttributeError", "Exception"), ("NameError", "Exception"),
               ("UnboundLocalError", "NameError"), ("AssertionError", "Exception"), ("RuntimeError", "Exception"), ("NotImplementedError", "RuntimeError"),
               ("ArithmeticError", "Exception"), ("ZeroDivisionError", "ArithmeticError"), ("OSError", "Exception"), ("FileNotFoundError", "OSError"),
               ("StopIteration", "Exception"), ("ImportError", "Exception"), ("ModuleNotFoundError", "ImportError"), ("OverflowError", "ArithmeticError"),
               ("Warning", "Exception"), ("UserWarning", "Warning"), ("UnicodeDecodeError", "ValueError"), ("LinAlgError", "Exception"), ("InvalidArgumentError", "Exception")]:
    EXC[_n].base = EXC[_b]


class Outcome:
    def __init__(self, state, flow, value, conds):
        self.state, self.flow, self.value, self.conds = state, flow, value, conds
        self.exc = None


class State:
    __slots__ = ("heap", "pc", "log")

    def __init__(self, heap, pc, log):
        self.heap, self.pc, self.log = heap, pc, log


class DecCtx:
    __slots__ = ("dec", "pos", "pending")

    def __init__(self, dec):
        self.dec, self.pos, self.pending = dec, 0, []


class MergeFail(Exception):
    pass


MAX_OUTCOMES = 160
MAX_DEPTH = 60


class Interp:
    def __init__(self, repo="/repo", lib=None):
        from . import lib as L
        self.repo = repo
        self.lib = L.LIB
        self.libmod = L
        self.heap = {}
        self.pc = []
        self.log = ()
        self.next_oid = 1
        self.parent = {}
        self.localnames = {}
        self.frame = None
        self.dstack = []
        self.loopvars = []
        self.family_guards = []
        self.modules = {}
        self.obj_params = {}
        self.depth = 0
        self.calls = set()       # repo functions executed (functions under contract closure)
        self.trusted = set()     # library contracts used
        self.assumed = []        # notes about assumptions made during execution
        self.nonzero = []        # functions from a term to terms a stated precondition makes non-zero
        self.loop_obligations = []
        self.definedness = []
        self.opaque = {}         # qualified repo function name -> label: entries of returned arrays are named, their definition forgotten
        self._opaque_keys = {}
        self.overrides = {}      # qualified repo function name -> LibFn (contract used instead of body)
        self.tapes_active = ()
        self.tape_count = 0
        self.lenient_merge = False
        self.TAPES = self.alloc(ListC([]))

    # ------------------------------------------------------------- heap
    def alloc(self, content):
        oid = self.next_oid
        self.next_oid += 1
        self.heap[oid] = content
        if self.loopvars:
            self.obj_params[oid] = tuple(self.loopvars)
        return Ref(oid)

    def content(self, ref):
        c = self.heap[ref.oid]
        return c

    def envmap(self, ref):
        return dict(ref.env)

    def snapshot(self):
        return State(dict(self.heap), list(self.pc), self.log)

    def restore(self, st):
        self.heap = dict(st.heap)
        self.pc = list(st.pc)
        self.log = st.log

    # ------------------------------------------------------------- branching
    def assume(self, c):
        c = T.lift(c)
        if c is TRUE:
            return
        self.pc.append(c)

    def truth(self, c):
        """Decide a symbolic condition if possible: True/False/None."""
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if c in self.pc:
            return True
        if T.not_(c) in self.pc:
            return False
        if smt.entails(self.pc, c):
            return True
        if smt.entails(self.pc, T.not_(c)):
            return False
        return None

    def branch(self, c):
        if isinstance(c, bool):
            return c
        c = T.lift(c)
        r = self.truth(c)
        if r is not None:
            return r
        return self.choose2(c)

    def choose2(self, c):
        if not self.dstack:
            raise Unsupported(f"branch on {c} outside exploration")
        ctx = self.dstack[-1]
        if ctx.pos < len(ctx.dec):
            v = ctx.dec[ctx.pos]
        else:
            v = True
            ctx.pending.append(ctx.dec[:ctx.pos] + [False])
            ctx.dec = ctx.dec + [True]
        ctx.pos += 1
        self.pc.append(c if v else T.not_(c))
        return v

    def choose(self, n):
        if n == 1:
            return 0
        ctx = self.dstack[-1]
        if ctx.pos < len(ctx.dec):
            v = ctx.dec[ctx.pos]
        else:
            v = 0
            for j in range(1, n):
                ctx.pending.append(ctx.dec[:ctx.pos] + [j])
            ctx.dec = ctx.dec + [0]
        ctx.pos += 1
        return v

    def explore(self, thunk):
        base = self.snapshot()
        frame, depth, loopvars = self.frame, self.depth, list(self.loopvars)
        work = [[]]
        outs = []
        while work:
            smt.check_deadline()
            dec = work.pop()
            self.restore(base)
            self.frame, self.depth, self.loopvars = frame, depth, list(loopvars)
            ctx = DecCtx(dec)
            self.dstack.append(ctx)
            flow, value, exc = "normal", None, None
            try:
                value = thunk()
            except PyRaise as e:
                flow, exc = "raise", e
            except ReturnFlow as e:
                flow, value = "return", e.value
            except BreakFlow:
                flow = "break"
            except ContinueFlow:
                flow = "continue"
            finally:
                self.dstack.pop()
            st = self.snapshot()
            o = Outcome(st, flow, value, st.pc[len(base.pc):])
            o.exc = exc
            if smt.feasible(st.pc):
                outs.append(o)
            work.extend(ctx.pending)
            if len(outs) > MAX_OUTCOMES:
                raise Unsupported("too many paths")
        self.restore(base)
        self.frame, self.depth, self.loopvars = frame, depth, loopvars
        return outs

    def resume(self, o):
        self.restore(o.state)
        if o.flow == "raise":
            raise o.exc
        if o.flow == "return":
            raise ReturnFlow(o.value)
        if o.flow == "break":
            raise BreakFlow()
        if o.flow == "continue":
            raise ContinueFlow()
        return o.value

    def join(self, outs):
        """Continue after exploration: merge normal outcomes if possible, fork otherwise."""
        if not outs:
            # no feasible path: contradictory pc
            self.pc.append(FALSE)
            raise PyRaise(EXC["Exception"], ("unreachable",))
        norm = [o for o in outs if o.flow == "normal"]
        other = [o for o in outs if o.flow != "normal"]
        groups = []
        if len(norm) > 1:
            try:
                groups.append(self.merge_outcomes(norm))
            except MergeFail:
                groups.extend(norm)
        else:
            groups.extend(norm)
        groups.extend(other)
        i = self.choose(len(groups)) if len(groups) > 1 else 0
        return self.resume(groups[i])

    # ------------------------------------------------------------- merging
    def merge_outcomes(self, outs):
        base_len = len(self.pc)
        acc = outs[0]
        for o in outs[1:]:
            acc = self.merge2(acc, o, base_len)
        return acc

    def merge2(self, a, b, base_len):
        ca = T.and_(*a.state.pc[base_len:])
        cb = T.and_(*b.state.pc[base_len:])
        # condition selecting a: prefer a simple distinguishing literal
        c = ca
        for lit in a.state.pc[base_len:]:
            n = T.not_(lit)
            if n in b.state.pc[base_len:]:
                c = lit
                break
        else:
            for lit in b.state.pc[base_len:]:
                if T.not_(lit) in a.state.pc[base_len:]:
                    c = T.not_(lit)
                    break
        m = Merger(self, c, a.state, b.state)
        heap = dict(a.state.heap)
        keys = set(a.state.heap) & set(b.state.heap)
        for oid in keys:
            x, y = a.state.heap[oid], b.state.heap[oid]
            if x is not y:
                m.common.add(oid)
        for oid, y in b.state.heap.items():
            if oid not in heap:
                heap[oid] = y
        m.heap = heap
        for oid in sorted(m.common):
            heap[oid] = m.merge_content(a.state.heap[oid], b.state.heap[oid], oid)
        value = m.merge_value(a.value, b.value) if (a.value is not None or b.value is not None) else None
        pc = a.state.pc[:base_len]
        u = T.or_(ca, cb)
        if u is not TRUE:
            pc = pc + [u]
        if a.state.log != b.state.log:
            raise MergeFail()
        o = Outcome(State(heap, pc, a.state.log), a.flow, value, pc[base_len:])
        return o

    # ------------------------------------------------------------- modules
    def load_module(self, name):
        if name in self.modules and self.modules[name].frame in self.heap:  # otherwise: loaded on another path only
            return self.modules[name]
        path = os.path.join(self.repo, *name.split("."))
        if os.path.isdir(path):
            file = os.path.join(path, "__init__.py")
        else:
            file = path + ".py"
        if not os.path.exists(file):
            raise PyRaise(EXC["ModuleNotFoundError"], (name,))
        with open(file, encoding="utf-8") as f:
            src = f.read()
        tree = ast.parse(src, file)
        fr = self.alloc(FrameC({"__name__": name}))
        self.parent[fr.oid] = None
        mod = RepoModule(name, fr.oid, file)
        mod.is_pkg = os.path.isdir(path)
        self.modules[name] = mod
        sf, sd = self.frame, self.dstack
        self.frame = fr.oid
        smod = getattr(self, "cur_module", None)
        self.cur_module = mod
        self.dstack = [DecCtx([])]
        try:
            self.exec_block(tree.body)
        finally:
            self.frame, self.dstack, self.cur_module = sf, sd, smod
        return mod

    def repo_has(self, name):
        p = os.path.join(self.repo, *name.split("."))
        return os.path.isdir(p) or os.path.exists(p + ".py")

    def import_name(self, name):
        """Module object for a dotted name."""
        if name.split(".")[0] == "fastvpinns" or self.repo_has(name.split(".")[0]) and name.split(".")[0] not in ("docs", "tests", "examples"):
            return self.load_module(name)
        return ExtModule(name)

    def module_frame(self, mod):
        return self.heap[mod.frame].vars

    # ------------------------------------------------------------- names
    def lookup(self, name):
        f = self.frame
        first = True
        while f is not None:
            v = self.heap[f].vars
            if name in v:
                return self.force(v[name], f, name)
            if first and name in self.localnames.get(f, ()):
                raise PyRaise(EXC["UnboundLocalError"], (name,))
            first = False
            f = self.parent.get(f)
        b = self.libmod.BUILTINS.get(name)
        if b is not None:
            return b
        if name in EXC:
            return EXC[name]
        if hasattr(builtins, name):
            raise Unsupported(f"no contract for the builtin {name}")
        raise PyRaise(EXC["NameError"], (name,))

    def force(self, v, oid=None, name=None):
        if isinstance(v, Poison):
            v.hit = True
            raise Unsupported(f"value of {name} unknown: {v.why}")
        if isinstance(v, LastValue):
            if v.v0 is None or isinstance(v.v0, Poison):
                # undefined before the loop: needs K >= 1
                if not self.branch(T.ge(v.K, 1)):
                    if v.v0 is None:
                        raise PyRaise(EXC["NameError"], (name,))
                    raise Unsupported(f"value of {name} unknown")
                r = v.make()
            elif self.branch(T.ge(v.K, 1)):
                r = v.make()
            else:
                r = v.v0
            if oid is not None:
                c = self.heap[oid]
                if isinstance(c, FrameC):
                    d = dict(c.vars)
                    d[name] = r
                    self.heap[oid] = FrameC(d)
            return r
        return v

    def assign_name(self, name, value):
        f = self.frame
        g = self.globals_decl.get(f) if hasattr(self, "globals_decl") else None
        if g and name in g:
            f = g[name]
        c = self.heap[f]
        d = dict(c.vars)
        d[name] = value
        self.heap[f] = FrameC(d)

    # ------------------------------------------------------------- statements
    def exec_block(self, stmts):
        for s in stmts:
            self.exec(s)

    def exec(self, s):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__} (line {getattr(s, 'lineno', '?')})")
        return m(s)

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value)

    def s_Pass(self, s):
        pass

    def s_Import(self, s):
        for a in s.names:
            mod = self.import_name(a.name)
            if a.asname:
                self.assign_name(a.asname, mod)
            else:
                top = a.name.split(".")[0]
                self.assign_name(top, mod if "." not in a.name else self.import_name(top))

    def s_ImportFrom(self, s):
        if s.level:
            cur = self.cur_module.name.split(".")
            if not self.cur_module.is_pkg:
                cur = cur[:-1]
            base = cur[: len(cur) - (s.level - 1)]
            name = ".".join(base + ([s.module] if s.module else []))
        else:
            name = s.module
        mod = self.import_name(name)
        for a in s.names:
            if a.name == "*":
                if isinstance(mod, ExtModule):
                    continue
                for k, v in list(self.module_frame(mod).items()):
                    if not k.startswith("_"):
                        self.assign_name(k, v)
                continue
            if isinstance(mod, RepoModule):
                fr = self.module_frame(mod)
                if a.name in fr:
                    v = fr[a.name]
                elif self.repo_has(name + "." + a.name):
                    v = self.load_module(name + "." + a.name)
                else:
                    raise PyRaise(EXC["ImportError"], (a.name,))
            else:
                v = self.ext_attr(mod, a.name)
            self.assign_name(a.asname or a.name, v)

    def s_FunctionDef(self, s):
        f = self.make_func(s)
        v = f
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v)
        self.assign_name(s.name, v)

    def make_func(self, s):
        args = s.args
        defaults = [self.eval(d) for d in args.defaults]
        kwd = {a.arg: self.eval(d) for a, d in zip(args.kwonlyargs, args.kw_defaults) if d is not None}
        name = getattr(s, "name", "<lambda>")
        return Func(s, self.frame, self.cur_module, name, None, defaults, kwd, f"{self.cur_module.name}.{name}")

    def decorate(self, d, v):
        if isinstance(d, ast.Name) and d.id in ("property", "staticmethod", "classmethod"):
            return PropertyV(v, d.id)
        if isinstance(d, ast.Name) and d.id == "abstractmethod":
            return v
        dv = self.eval(d)
        if isinstance(dv, LibFn) and dv.name in ("tensorflow.function", "abc.abstractmethod", "functools.wraps"):
            self.trusted.add("tf.function: executes the decorated function with eager semantics")
            return v
        if isinstance(dv, (Inert, ExtModule)) :
            raise Unsupported(f"decorator {dv}")
        return self.call(dv, [v], {})

    def s_ClassDef(self, s):
        bases = []
        for b in s.bases:
            bases.append(self.eval(b))
        fr = self.alloc(FrameC({}))
        self.parent[fr.oid] = self.frame
        saved = self.frame
        self.frame = fr.oid
        try:
            self.exec_block(s.body)
        finally:
            self.frame = saved
        attrs = dict(self.heap[fr.oid].vars)
        decos = [self.decorator_name(d) for d in s.decorator_list]
        if any(d != "dataclass" for d in decos):
            raise Unsupported(f"class decorator {decos}")
        cls = Cls(s.name, bases, attrs, self.cur_module)
        cls.dyn = self.alloc(FrameC({})).oid  # attributes assigned later are part of the state
        if decos:
            self.dataclass_init(s, cls, attrs)
        for k, v in attrs.items():
            f = v.fn if isinstance(v, PropertyV) else v
            if isinstance(f, Func):
                f.cls = cls
                f.qual = f"{self.cur_module.name}.{s.name}.{f.name}"
                f.frame = saved
        self.assign_name(s.name, cls)

    @staticmethod
    def decorator_name(d):
        f = d.func if isinstance(d, ast.Call) else d
        return f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "?")

    def dataclass_init(self, s, cls, attrs):
        """@dataclass: the constructor assigns its parameters, in the order of the annotated fields, then calls __post_init__."""
        d = s.decorator_list[0]
        if isinstance(d, ast.Call) and any(k.arg not in ("repr", "frozen", "eq", "slots") for k in d.keywords):
            raise Unsupported("dataclass options")
        if any(isinstance(b, Cls) for b in cls.mro()[1:]) or "__init__" in attrs:
            raise Unsupported("dataclass with bases")
        fields = []
        for st in s.body:
            if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                if isinstance(st.value, ast.Call):
                    raise Unsupported("dataclass field")
                fields.append((st.target.id, st.value))
        src = "def __init__(self%s):\n%s" % ("".join(", " + n + ("=" + ast.unparse(v) if v is not None else "") for n, v in fields),
                                             "".join(f"    self.{n} = {n}\n" for n, _ in fields) + ("    self.__post_init__()\n" if "__post_init__" in attrs else "    pass\n"))
        f = self.make_func(ast.parse(src).body[0])
        f.cls, f.qual = cls, f"{self.cur_module.name}.{s.name}.__init__"
        attrs["__init__"] = f

    def s_Return(self, s):
        raise ReturnFlow(self.eval(s.value) if s.value is not None else None)

    def s_Raise(self, s):
        if s.exc is None:
            if getattr(self, "handling", None):
                raise self.handling[-1]
            raise Unsupported("bare raise")
        e = self.eval(s.exc)
        if isinstance(e, ExcCls):
            raise PyRaise(e)
        if isinstance(e, PyRaise):
            raise e
        raise Unsupported(f"raise {e}")

    def s_Assert(self, s):
        if not self.branch(self.to_bool(self.eval(s.test))):
            raise PyRaise(EXC["AssertionError"])

    def s_Global(self, s):
        if not hasattr(self, "globals_decl"):
            self.globals_decl = {}
        d = self.globals_decl.setdefault(self.frame, {})
        for n in s.names:
            d[n] = self.cur_module.frame

    def s_Nonlocal(self, s):
        if not hasattr(self, "globals_decl"):
            self.globals_decl = {}
        d = self.globals_decl.setdefault(self.frame, {})
        for n in s.names:
            f = self.parent.get(self.frame)
            while f is not None and n not in self.heap[f].vars:
                f = self.parent.get(f)
            d[n] = f

    def s_If(self, s):
        c = self.to_bool(self.eval(s.test))
        if isinstance(c, bool):
            return self.exec_block(s.body if c else s.orelse)
        r = self.truth(c)
        if r is not None:
            return self.exec_block(s.body if r else s.orelse)

        def thunk():
            self.exec_block(s.body if self.branch(c) else s.orelse)

        self.join(self.explore(thunk))

    def s_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))

    def s_AugAssign(self, s):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id)
            new = self.inplace(op, cur, self.eval(s.value))
            self.assign_name(t.id, new)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            cur = self.getattr(o, t.attr)
            new = self.inplace(op, cur, self.eval(s.value))
            self.setattr(o, t.attr, new)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            i = self.eval_index(t.slice)
            cur = self.getitem(o, i)
            new = self.inplace(op, cur, self.eval(s.value), sub=True)
            self.setitem(o, i, new)
        else:
            raise Unsupported("augmented assignment target")

    def inplace(self, op, cur, v, sub=False):
        if isinstance(cur, Ref):
            c = self.content(cur)
            if isinstance(c, ListC) and op == "Add":
                self.call_method(cur, "extend", [v], {})
                return cur
            if isinstance(c, ArrC):
                new = self.arr(self.binop(op, cur, v))
                old = self.arr(cur)
                b = self.broadcast_to(new, old.shape)
                if new.ndim > old.ndim:
                    raise PyRaise(EXC["ValueError"], ("non-broadcastable output operand",))
                self.store_arr(cur, b.with_(dtype=old.dtype))
                return cur
        return self.binop(op, cur, v)

    def s_For(self, s):
        from . import loops
        it = self.eval(s.iter)
        loops.run_for(self, s, it)

    def counting_while(self, s):
        """`while i < E: ...; i += 1` with a symbolic bound E: (trip count, bound again).  None if not of this form."""
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.LtE, ast.NotEq)) and isinstance(t.left, ast.Name)) or s.orelse or not s.body:
            return None
        i, last = t.left.id, s.body[-1]
        one = lambda e: isinstance(e, ast.Constant) and e.value == 1
        name = lambda e: isinstance(e, ast.Name) and e.id == i
        if not (isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and name(last.target) and one(last.value)
                or isinstance(last, ast.Assign) and len(last.targets) == 1 and name(last.targets[0]) and isinstance(last.value, ast.BinOp) and isinstance(last.value.op, ast.Add)
                and (name(last.value.left) and one(last.value.right) or one(last.value.left) and name(last.value.right))):
            return None
        used = {x.id for x in ast.walk(t.comparators[0]) if isinstance(x, ast.Name)}
        for b in s.body:
            for x in ast.walk(b):
                if isinstance(x, (ast.Break, ast.Continue, ast.Return)):
                    return None
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and (x.id in used or x.id == i and b is not last):
                    return None
        i0, e = self.eval(t.left), self.eval(t.comparators[0])
        if not (self.is_num(i0) and self.is_num(e)) or T.lift(i0).sort != "I" or T.lift(e).sort != "I":
            return None
        n = T.sub(T.lift(e), T.lift(i0))
        if isinstance(t.ops[0], ast.LtE):
            n = T.add(n, 1)
        if T.cval(n) is not None or isinstance(t.ops[0], ast.NotEq) and self.truth(T.ge(n, 0)) is not True:
            return None
        return n, e

    def s_While(self, s):
        from . import loops
        cw = self.counting_while(s)
        if cw is not None:
            n, e = cw
            loops.symbolic_loop(self, n, lambda k: self.exec_block(s.body), getattr(s, "lineno", 0))
            if self.truth(T.eq(T.lift(self.eval(s.test.comparators[0])), T.lift(e))) is not True:
                raise Unsupported("the bound of a while loop changes in its body")
            return
        n = 0
        while True:
            c = self.to_bool(self.eval(s.test))
            if not isinstance(c, bool):
                r = self.truth(c)
                if r is None:
                    raise Unsupported("while loop with a symbolic condition")
                c = r
            if not c:
                self.exec_block(s.orelse)
                return
            try:
                self.exec_block(s.body)
            except BreakFlow:
                return
            except ContinueFlow:
                pass
            n += 1
            if n > 200:
                raise Unsupported("while loop does not terminate within 200 concrete iterations")

    def s_Break(self, s):
        raise BreakFlow()

    def s_Continue(self, s):
        raise ContinueFlow()

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                c = self.heap[self.frame]
                d = dict(c.vars)
                d.pop(t.id, None)
                self.heap[self.frame] = FrameC(d)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value)
                i = self.eval_index(t.slice)
                self.call_method(o, "pop", [i], {})
            else:
                raise Unsupported("del")

    def s_With(self, s):
        self._with(s.items, s.body)

    def _with(self, items, body):
        if not items:
            return self.exec_block(body)
        it = items[0]
        cm = self.eval(it.context_expr)
        c = self.content(cm) if isinstance(cm, Ref) else None
        if isinstance(c, InstC) and isinstance(c.cls, Cls) and c.cls.lookup("__exit__") is not None:
            return self.user_with(it, items, body, cm, c.cls)
        v = self.enter(cm)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v)
        try:
            self._with(items[1:], body)
        finally:
            self.exit(cm)

    def user_with(self, it, items, body, cm, cls):
        v = self.call(BoundMethod(cls.lookup("__enter__"), cm), [], {})
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v)
        leave = lambda *a: self.call(BoundMethod(cls.lookup("__exit__"), cm), list(a), {})
        try:
            self._with(items[1:], body)
        except PyRaise as e:
            if not self.branch(self.to_bool(leave(e.cls, e, None))):
                raise
            return
        except (ReturnFlow, BreakFlow, ContinueFlow):
            leave(None, None, None)
            raise
        leave(None, None, None)

    def enter(self, cm):
        if isinstance(cm, Inert):
            return cm
        if isinstance(cm, Ref) and isinstance(self.content(cm), InstC):
            h = self.libmod.CM.get(getattr(self.content(cm).cls, "name", None))
            if h:
                return h[0](self, cm)
        if isinstance(cm, Opaque):
            h = self.libmod.CM.get(cm.label)
            if h:
                return h[0](self, cm)
        raise Unsupported(f"context manager {cm}")

    def exit(self, cm):
        if isinstance(cm, Inert):
            return
        name = cm.label if isinstance(cm, Opaque) else self.content(cm).cls.name
        self.libmod.CM[name][1](self, cm)

    def s_Try(self, s):
        def body():
            self.exec_block(s.body)

        outs = self.explore(body)
        if any(o.flow == "raise" for o in outs) and len(outs) > 1:
            i = self.choose(len(outs))
            o = outs[i]
        elif len(outs) == 1:
            o = outs[0]
        else:
            try:
                self.join(outs)
                self.exec_block(s.orelse)
            finally:
                if s.finalbody:
                    self.exec_block(s.finalbody)
            return
        self.restore(o.state)
        try:
            if o.flow == "raise":
                for h in s.handlers:
                    if h.type is None:
                        match = True
                    else:
                        t = self.eval(h.type)
                        ts = t if isinstance(t, tuple) else (t,)
                        match = any(isinstance(x, ExcCls) and o.exc.cls.issub(x) for x in ts)
                    if match:
                        if h.name:
                            self.assign_name(h.name, o.exc)
                        if not hasattr(self, "handling"):
                            self.handling = []
                        self.handling.append(o.exc)
                        try:
                            self.exec_block(h.body)
                        finally:
                            self.handling.pop()
                        return
                raise o.exc
            if o.flow != "normal":
                self.resume(o)
            self.exec_block(s.orelse)
        finally:
            if s.finalbody:
                self.exec_block(s.finalbody)

    # ------------------------------------------------------------- assignment
    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            st = [n for n, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if st:
                if len(st) > 1 or not (isinstance(v, Ref) and isinstance(self.content(v), ListC) or isinstance(v, tuple)):
                    raise Unsupported("starred assignment")
                a, b = st[0], len(t.elts) - 1 - st[0]
                for n in range(a):
                    self.assign(t.elts[n], self.getitem(v, n))
                rest = self.getitem(v, SliceV(a, -b if b else None, None))
                self.assign(t.elts[a].value, rest if isinstance(rest, Ref) else self.alloc(ListC.of(list(rest))))
                for n in range(b):
                    self.assign(t.elts[a + 1 + n], self.getitem(v, n - b))
                return
            vals = self.unpack(v, len(t.elts))
            for e, x in zip(t.elts, vals):
                self.assign(e, x)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            self.setitem(o, self.eval_index(t.slice), v)
        else:
            raise Unsupported(f"assignment target {type(t).__name__}")

    def unpack(self, v, n):
        if isinstance(v, tuple):
            if len(v) != n:
                raise PyRaise(EXC["ValueError"], ("unpack",))
            return list(v)
        if isinstance(v, Ref) and isinstance(self.content(v), ListC):
            c = self.content(v)
            if c.concrete():
                if len(c.segs) != n:
                    raise PyRaise(EXC["ValueError"], ("unpack",))
                return c.items()
            return [self.getitem(v, i) for i in range(n)]
        a = self.as_arr_or_none(v)
        if a is not None:
            if a.ndim == 0:
                raise PyRaise(EXC["TypeError"], ("cannot unpack scalar",))
            d = a.shape[0]
            if isinstance(d, int):
                if d != n:
                    raise PyRaise(EXC["ValueError"], ("unpack",))
            elif not self.branch(T.eq(d, n)):
                raise PyRaise(EXC["ValueError"], ("unpack",))
            return [self.getitem(v, i) for i in range(n)]
        if isinstance(v, Inert):
            return [v] * n
        if isinstance(v, str):
            if len(v) != n:
                raise PyRaise(EXC["ValueError"], ("unpack",))
            return list(v)
        raise Unsupported(f"unpack {v}")

    # ------------------------------------------------------------- expressions
    def eval(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e)

    def e_Constant(self, e):
        v = e.value
        if isinstance(v, float):
            if v != v or v in (float("inf"), float("-inf")):
                return Opaque(str(v))
            return Fraction(str(v))
        if isinstance(v, (bool, int, str)) or v is None:
            return v
        if v is Ellipsis:
            return Ellipsis
        raise Unsupported(f"constant {v!r}")

    def e_Name(self, e):
        return self.lookup(e.id)

    def e_Tuple(self, e):
        return tuple(self.eval_elts(e.elts))

    def eval_elts(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.concrete_items(self.eval(x.value)))
            else:
                out.append(self.eval(x))
        return out

    def concrete_items(self, v):
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, Ref):
            c = self.content(v)
            if isinstance(c, ListC) and c.concrete():
                return c.items()
            if isinstance(c, DictC):
                return list(c.d.keys())
            if isinstance(c, ArrC):
                a = self.arr(v)
                if a.ndim and isinstance(a.shape[0], int):
                    return [self.getitem(v, i) for i in range(a.shape[0])]
        if isinstance(v, Arr) and v.ndim and isinstance(v.shape[0], int):
            return [self.getitem(v, i) for i in range(v.shape[0])]
        if isinstance(v, range):
            return list(v)
        if isinstance(v, SymSeq) and isinstance(v.n, int):
            return [v.fn(T.const(i)) for i in range(v.n)]
        raise Unsupported(f"iterate concretely over {v}")

    def e_List(self, e):
        if not any(isinstance(x, ast.Starred) for x in e.elts):
            return self.alloc(ListC.of(self.eval_elts(e.elts)))
        r = self.alloc(ListC.of(()))
        for x in e.elts:
            self.call_method(r, "extend" if isinstance(x, ast.Starred) else "append", [self.eval(x.value if isinstance(x, ast.Starred) else x)], {})
        return r

    def e_Set(self, e):
        vals = []
        for v in self.eval_elts(e.elts):
            for w in vals:
                if self.branch(self.to_bool(self.compare("Eq", v, w))):
                    break
            else:
                vals.append(v)
        return self.alloc(ListC.of(vals))

    def e_Dict(self, e):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.eval(v)
                c = self.content(src) if isinstance(src, Ref) else None
                if not isinstance(c, DictC):
                    raise Unsupported("dict unpacking")
                d.update(c.d)
            else:
                d[self.key(self.eval(k))] = self.eval(v)
        return self.alloc(DictC(d))

    def key(self, k):
        if isinstance(k, Term):
            c = T.cval(k)
            if c is not None and k.sort == "I":
                return int(c)
            if k.op == "str":
                return k.args[0]
            return k
        if isinstance(k, (str, int, Fraction, bool)) or k is None:
            return k
        if isinstance(k, tuple):
            return tuple(self.key(x) for x in k)
        raise Unsupported(f"dict key {k}")

    def e_Lambda(self, e):
        return self.make_func(e)

    def e_IfExp(self, e):
        c = self.to_bool(self.eval(e.test))
        if isinstance(c, bool):
            return self.eval(e.body if c else e.orelse)
        r = self.truth(c)
        if r is not None:
            return self.eval(e.body if r else e.orelse)

        def thunk():
            return self.eval(e.body if self.branch(c) else e.orelse)

        return self.join(self.explore(thunk))

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        acc = None  # symbolic truth value of the operands so far (all of them booleans)
        for i, x in enumerate(e.values):
            v = self.eval(x)
            b = self.to_bool(v)
            last = i == len(e.values) - 1
            isbool = isinstance(v, bool) or (isinstance(v, Term) and v.sort == "B")
            if not isinstance(b, bool) and self.truth(b) is not None:
                b = self.truth(b)
            if not isbool and acc is not None:
                # the value of the whole expression is an operand, not a truth value
                if self.branch(acc) is not isand:
                    return not isand
                acc = None
            if isinstance(b, bool):
                if b is not isand:
                    return v if acc is None else self._bool_acc(acc, b, isand)
                if last and acc is None:
                    return v
                continue
            if last:
                return v if acc is None else self._bool_acc(acc, b, isand)
            if not isbool:
                if self.branch(b) is not isand:
                    return v
                continue
            # symbolic: short-circuit evaluation matters only if the rest can raise; evaluate the rest under b
            if all(self.pure_expr(y) for y in e.values[i + 1:]):
                acc = b if acc is None else self._bool_acc(acc, b, isand)
                continue
            if self.branch(b) is not isand:
                return (not isand) if acc is None else self._bool_acc(acc, not isand, isand)
        return acc if acc is not None else isand

    def _bool_acc(self, acc, b, isand):
        if isand:
            return T.and_(acc, T.lift(b))
        return T.or_(acc, T.lift(b))

    def pure_expr(self, x):
        """Cannot raise in a way the left operand guards against (comparisons of names, constants, attributes)."""
        for n in ast.walk(x):
            if isinstance(n, (ast.Subscript, ast.Await, ast.Yield)):
                return False
            if isinstance(n, ast.Call):
                f = n.func
                if not (isinstance(f, ast.Name) and f.id in ("len", "isinstance", "int", "float", "abs", "callable", "hasattr")):
                    return False
        return True

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        op = type(e.op).__name__
        if op == "Not":
            b = self.to_bool(v)
            return (not b) if isinstance(b, bool) else T.not_(b)
        if op == "UAdd":
            return v
        if op == "USub":
            if isinstance(v, bool):
                return -int(v)
            if isinstance(v, (int, Fraction)):
                return -v
            if isinstance(v, Term):
                return T.neg(v)
            return self.libmod.map1(self, v, T.neg)
        if op == "Invert":
            if isinstance(v, Term) and v.sort == "B":
                return T.not_(v)
            return self.libmod.map1(self, v, T.not_, dtype="bool")
        raise Unsupported(op)

    def e_BinOp(self, e):
        return self.binop(type(e.op).__name__, self.eval(e.left), self.eval(e.right))

    def e_Compare(self, e):
        left = self.eval(e.left)
        acc = TRUE
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r)
            v = self.compare(type(op).__name__, left, right)
            if len(e.ops) == 1:
                return v
            b = self.to_bool(v)
            acc = T.and_(acc, T.lift(b))
            if acc is FALSE:
                return False
            left = right
        return True if acc is TRUE else acc

    def e_Call(self, e):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            if e.args:
                return SuperV(self.eval(e.args[0]), self.eval(e.args[1]))
            f = self.cur_func
            a = f.node.args.args
            return SuperV(f.cls, self.lookup(a[0].arg))
        fn = self.eval(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.concrete_items(self.eval(a.value)))
            else:
                args.append(self.eval(a))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value)
                c = self.content(d) if isinstance(d, Ref) else None
                if not isinstance(c, DictC):
                    raise Unsupported("** of a non-literal dictionary")
                kw.update(c.d)
            else:
                kw[k.arg] = self.eval(k.value)
        return self.call(fn, args, kw)

    def e_Attribute(self, e):
        return self.getattr(self.eval(e.value), e.attr)

    def e_Subscript(self, e):
        o = self.eval(e.value)
        return self.getitem(o, self.eval_index(e.slice))

    def eval_index(self, s):
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_index(x) for x in s.elts)
        return self.eval(s)

    def e_Slice(self, e):
        return SliceV(self.eval(e.lower) if e.lower else None, self.eval(e.upper) if e.upper else None, self.eval(e.step) if e.step else None)

    def e_Starred(self, e):
        raise Unsupported("starred expression")

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.assign(e.target, v)
        return v

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(str(v.value))
                continue
            x = self.eval(v.value)
            parts += self.text_of(x, self.eval(v.format_spec) if v.format_spec is not None else "", v.conversion in (-1, ord("s")))
        return self.text(parts)

    def text_of(self, x, spec="", plain=True):
        """The parts of the text of a value in an f-string."""
        if isinstance(x, (str, int)) and not isinstance(x, bool) and isinstance(spec, str) and (plain or isinstance(x, int)):
            try:
                return [format(x, spec)]
            except Exception:
                pass
        if isinstance(x, Term) and not spec and (plain or x.sort != "U"):
            return [x]
        if isinstance(x, Opaque) and x.label == "fstring" and not spec and plain:
            return list(x.attrs["parts"])
        if isinstance(x, Term) and isinstance(spec, str):
            # an unknown function of the value
            return [T.rawapp("fmt", (T.strc(spec), x), "U")]
        return [Opaque(T.fresh("fmt", "U").args[0])]

    def text(self, parts):
        if all(isinstance(p, str) for p in parts):
            return "".join(parts)
        return Opaque("fstring", {"parts": self.libmod.norm_parts(tuple(parts))})

    def comp(self, gens, leaf, i=0):
        from . import loops
        raise NotImplementedError

    def e_ListComp(self, e):
        from . import loops
        return loops.run_comp(self, e.generators, lambda: self.eval(e.elt))

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e):
        raise Unsupported("set comprehension")

    def e_DictComp(self, e):
        if len(e.generators) != 1 or e.generators[0].ifs:
            raise Unsupported("dict comprehension")
        g = e.generators[0]
        it = self.eval(g.iter)
        saved = self.frame
        fr = self.alloc(FrameC({}))
        self.parent[fr.oid] = saved
        self.frame = fr.oid
        try:
            from . import loops
            view = loops.GHOST.view_of(self, it) if loops.GHOST is not None else None
            if view is not None:
                return loops.GHOST.dict_comp(self, view, lambda: self.eval(e.key), lambda: self.eval(e.value), lambda x: self.assign(g.target, x))
            seq = loops.as_sequence(self, it)
            if isinstance(seq, list):
                d = {}
                for x in seq:
                    self.assign(g.target, x)
                    d[self.key(self.eval(e.key))] = self.eval(e.value)
                return self.alloc(DictC(d))
            raise Unsupported("dict comprehension over a symbolic sequence")
        finally:
            self.frame = saved

    # ------------------------------------------------------------- truth values
    def to_bool(self, v):
        """python bool or boolean Term."""
        if v is None:
            return False
        if isinstance(v, bool):
            return v
        if isinstance(v, (int, Fraction)):
            return v != 0
        if isinstance(v, str):
            return len(v) > 0
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, Term):
            if v is TRUE:
                return True
            if v is FALSE:
                return False
            if v.sort == "B":
                return v
            if v.sort in "IR":
                b = T.ne(v, 0)
                return True if b is TRUE else False if b is FALSE else b
            if v.sort == "U":
                return T.ne(v, T.strc(""))
        if isinstance(v, Ref):
            c = self.content(v)
            if isinstance(c, ListC):
                return self.to_bool(c.length())
            if isinstance(c, DictC):
                return len(c.d) > 0
            if isinstance(c, SymDictC):
                return self.to_bool(c.n)
            if isinstance(c, InstC):
                return True
        a = self.as_arr_or_none(v)
        if a is not None:
            s = a.size()
            if s == 1:
                return self.to_bool(self.unbool(a.at(*[0] * a.ndim)))
            raise PyRaise(EXC["ValueError"], ("truth value of an array is ambiguous",))
        if isinstance(v, (Func, BoundMethod, Cls, LibFn, SymCallable, DTypeV, RepoModule, ExtModule)):
            return True
        if isinstance(v, (Inert, Opaque)):
            raise Unsupported(f"truth value of {v}")
        raise Unsupported(f"truth value of {v}")

    def unbool(self, t):
        return True if t is TRUE else False if t is FALSE else t

    # ------------------------------------------------------------- arithmetic
    def is_num(self, v):
        return isinstance(v, (bool, int, Fraction)) or isinstance(v, Term) and v.sort in "IRB"

    def numlift(self, v):
        if isinstance(v, bool):
            return T.const(int(v))
        if isinstance(v, Term) and v.sort == "B":
            return T.ite(v, T.ONE, T.ZERO)
        return T.lift(v)

    def simp(self, t):
        """Keep concrete ints concrete."""
        return t

    def binop(self, op, a, b):
        r = self._binop(op, a, b)
        return self.libmod.tf_wrap(self, r) if self.tape_count and isinstance(r, Arr) and r.kind == "tf" else r

    def _binop(self, op, a, b):
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported("unknown operand")
        if self.is_num(a) and self.is_num(b):
            return self.scalar_op(op, a, b)
        if isinstance(a, str) and isinstance(b, str) and op == "Add":
            return a + b
        if isinstance(a, str) and isinstance(b, int) and op == "Mult":
            return a * b
        if isinstance(a, str) and op == "Mod":
            return self.libmod.str_percent(self, a, b)
        if isinstance(a, (Opaque, str)) and isinstance(b, (Opaque, str, Term)) and op == "Add":
            pa = a.attrs.get("parts", (a,)) if isinstance(a, Opaque) else (a,)
            pb = b.attrs.get("parts", (b,)) if isinstance(b, Opaque) else (b,)
            return Opaque("fstring", {"parts": tuple(pa) + tuple(pb)})
        if isinstance(a, Term) and a.sort == "U" and op == "Add" and isinstance(b, (str, Term, Opaque)):
            pb = b.attrs.get("parts", (b,)) if isinstance(b, Opaque) else (b,)
            return Opaque("fstring", {"parts": (a,) + tuple(pb)})
        if isinstance(a, tuple) and isinstance(b, tuple) and op == "Add":
            return a + b
        if isinstance(a, tuple) and isinstance(b, int) and op == "Mult":
            return a * b
        if isinstance(a, Ref) and isinstance(self.content(a), ListC) and not isinstance(b, Arr):
            ca = self.content(a)
            if op == "Add" and isinstance(b, Ref) and isinstance(self.content(b), ListC):
                return self.alloc(ListC(ca.segs + self.content(b).segs))
            if op == "Mult" and isinstance(b, int):
                return self.alloc(ListC(ca.segs * b))
            if op == "Mult" and isinstance(b, Term) and len(ca.segs) == 1 and ca.segs[0].single:
                v = ca.segs[0].value
                return self.alloc(ListC([Seg(b, lambda i: v)]))
        h = self.libmod.binop_hook(self, op, a, b)
        if h is not NotImplemented:
            return h
        A, B = self.as_arr_or_none(a), self.as_arr_or_none(b)
        if A is not None and B is not None:
            return self.libmod.arr_binop(self, op, a, b, A, B)
        if isinstance(a, Inert) or isinstance(b, Inert):
            return Inert("expr")
        if a is None or b is None or isinstance(a, (Func, Cls)) or isinstance(b, (Func, Cls)):
            raise PyRaise(EXC["TypeError"], (f"unsupported operand for {op}",))
        raise Unsupported(f"{op} on {a!r} and {b!r}")

    def scalar_op(self, op, a, b):
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if isinstance(a, Term) and a.sort == "B" and isinstance(b, Term) and b.sort == "B":
            if op == "BitAnd":
                return T.and_(a, b)
            if op == "BitOr":
                return T.or_(a, b)
        if not isinstance(a, Term) and not isinstance(b, Term):
            try:
                return self._concrete(op, a, b)
            except ZeroDivisionError:
                raise PyRaise(EXC["ZeroDivisionError"])
        x, y = self.numlift(a), self.numlift(b)
        r = self.term_op(op, x, y)
        return r

    def _concrete(self, op, a, b):
        import operator as o
        if op == "Div":
            return Fraction(a) / Fraction(b)
        if op == "Pow":
            if isinstance(b, Fraction) and b.denominator == 1:
                r = Fraction(a) ** int(b)
                return r
            if isinstance(b, Fraction):
                if b == Fraction(1, 2):
                    t = T.sqrt(T.lift(a))
                    return T.cval(t) if T.cval(t) is not None else t
                raise Unsupported("fractional power")
            r = a ** b if b >= 0 else Fraction(a) ** b
            return r
        f = {"Add": o.add, "Sub": o.sub, "Mult": o.mul, "FloorDiv": o.floordiv, "Mod": o.mod, "BitAnd": o.and_, "BitOr": o.or_, "LShift": o.lshift, "RShift": o.rshift, "BitXor": o.xor}.get(op)
        if f is None:
            raise Unsupported(op)
        r = f(a, b)
        if isinstance(a, Fraction) or isinstance(b, Fraction):
            r = Fraction(r)
        return r

    def term_op(self, op, x, y):
        if op == "Add":
            return T.add(x, y)
        if op == "Sub":
            return T.sub(x, y)
        if op == "Mult":
            return T.mul(x, y)
        if op == "Div":
            return T.div(x, y)
        if op == "Pow":
            c = T.cval(y)
            if c is not None and c.denominator == 1 and abs(c) <= 40:
                return T.power(x, int(c))
            if c == Fraction(1, 2):
                return T.sqrt(x)
            cx = T.cval(x)
            if cx == 2 and y.sort == "I":
                return T.app("pow2", (y,), "I")
            return T.app("pow", (x, y), "R")
        if op == "FloorDiv":
            return T.idiv(x, y)
        if op == "Mod":
            return T.imod(x, y)
        raise Unsupported(f"{op} on symbolic scalars")

    def compare(self, op, a, b):
        if op in ("Is", "IsNot"):
            r = self.identical(a, b)
            return r if op == "Is" else not r
        if op in ("In", "NotIn"):
            r = self.contains(b, a)
            if op == "In":
                return r
            return (not r) if isinstance(r, bool) else T.not_(r)
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported("unknown operand")
        if self.is_num(a) and self.is_num(b):
            if not isinstance(a, Term) and not isinstance(b, Term):
                return {"Eq": a == b, "NotEq": a != b, "Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
            return self.unbool(self.term_cmp(op, self.numlift(a), self.numlift(b)))
        if op in ("Eq", "NotEq"):
            A, B = (self.as_arr_or_none(x) if not isinstance(x, (str, tuple)) and not (isinstance(x, Ref) and isinstance(self.content(x), ListC)) else None for x in (a, b))
            if (A is not None or B is not None) and A is not None and (B is not None):
                return self.libmod.arr_binop(self, op, a, b, A, B)
            r = self.equal(a, b)
            if op == "Eq":
                return r
            return (not r) if isinstance(r, bool) else T.not_(r)
        A, B = self.as_arr_or_none(a), self.as_arr_or_none(b)
        if A is not None and B is not None:
            return self.libmod.arr_binop(self, op, a, b, A, B)
        if isinstance(a, str) and isinstance(b, str):
            return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            raise PyRaise(EXC["TypeError"], ("comparison",))
        raise Unsupported(f"compare {op} {a} {b}")

    def term_cmp(self, op, x, y):
        return {"Eq": T.eq, "NotEq": T.ne, "Lt": T.lt, "LtE": T.le, "Gt": T.gt, "GtE": T.ge}[op](x, y)

    def identical(self, a, b):
        if a is b:
            return True
        if a is None or b is None:
            if isinstance(a, (Poison, LastValue)) or isinstance(b, (Poison, LastValue)):
                raise Unsupported("identity of an unknown value")
            for x in (a, b):
                if isinstance(x, Opaque) and x.label == "maybe":
                    raise Unsupported("identity of opaque")
            return False
        if isinstance(a, (bool, int, str)) and isinstance(b, (bool, int, str)):
            return type(a) == type(b) and a == b
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a == b
        if isinstance(a, DTypeV) and isinstance(b, DTypeV):
            return a == b
        if isinstance(a, Term) and isinstance(b, bool) or isinstance(b, Term) and isinstance(a, bool):
            t = a if isinstance(a, Term) else b
            c = b if isinstance(a, Term) else a
            if t.sort == "B":
                return t if c else T.not_(t)
        return False

    def equal(self, a, b):
        if isinstance(a, (str, Term)) and isinstance(b, (str, Term)):
            ta, tb = T.lift(a), T.lift(b)
            if ta.sort == tb.sort or (ta.sort in "IR" and tb.sort in "IR"):
                return self.unbool(T.eq(ta, tb))
            return False
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            acc = TRUE
            for x, y in zip(a, b):
                acc = T.and_(acc, T.lift(self.to_bool(self.compare("Eq", x, y))))
            return self.unbool(acc)
        if isinstance(a, Ref) and isinstance(b, Ref):
            ca, cb = self.content(a), self.content(b)
            if isinstance(ca, ListC) and isinstance(cb, ListC) and ca.concrete() and cb.concrete():
                return self.equal(tuple(ca.items()), tuple(cb.items()))
            if a == b:
                return True
            raise Unsupported("equality of objects")
        if isinstance(a, DTypeV) or isinstance(b, DTypeV):
            return a == b or (isinstance(b, str) and isinstance(a, DTypeV) and a.name == b)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if a is b:
                return True
            raise Unsupported("equality of opaque values")
        if isinstance(a, (Inert,)) or isinstance(b, Inert):
            raise Unsupported("comparison with an effect-only value")
        return a is b or (type(a) == type(b) and not isinstance(a, (Ref, Arr)) and a == b)

    def contains(self, coll, x):
        if isinstance(coll, (tuple, list)):
            items = list(coll)
        elif isinstance(coll, str) and isinstance(x, str):
            return x in coll
        elif isinstance(coll, Ref):
            c = self.content(coll)
            h = self.libmod.dict_contains(self, coll, x)
            if h is not NotImplemented:
                return h
            if isinstance(c, ListC):
                if not c.concrete():
                    raise Unsupported("membership in a symbolic list")
                items = c.items()
            elif isinstance(c, DictC):
                k = self.key(x)
                if not isinstance(k, Term) and not any(isinstance(y, Term) for y in c.d):
                    return k in c.d
                items = list(c.d.keys())
            else:
                return self.libmod.contains_hook(self, coll, c, x)
        elif isinstance(coll, range):
            if isinstance(x, int):
                return x in coll
            if coll.step == 1:
                return self.unbool(T.and_(T.ge(T.lift(x), coll.start), T.lt(T.lift(x), coll.stop)))
            items = list(coll)
        else:
            return self.libmod.contains_hook(self, coll, None, x)
        acc = FALSE
        for y in items:
            b = self.compare("Eq", x, y) if not (x is None or y is None) else (x is y)
            acc = T.or_(acc, T.lift(self.to_bool(b)))
        return self.unbool(acc)

    # ------------------------------------------------------------- arrays
    def as_arr_or_none(self, v):
        if isinstance(v, Arr):
            return v
        if isinstance(v, (bool, int, Fraction)) or isinstance(v, Term) and v.sort in "IRB":
            t = T.lift(v)
            dt = "int64" if t.sort == "I" and not isinstance(v, Fraction) else "bool" if t.sort == "B" else "float64"
            return Arr((), lambda: t, dt, "py")
        if isinstance(v, Ref):
            c = self.content(v)
            if isinstance(c, ArrC):
                return self.read_arr(v)
            if isinstance(c, ListC):
                return self.list_to_arr(v)
            if isinstance(c, InstC):
                h = self.libmod.inst_to_arr(self, v, c)
                if h is not None:
                    return h
            return None
        if isinstance(v, tuple):
            return self.list_to_arr(v)
        if isinstance(v, range):
            if v.step == 1:
                return Arr((len(v),), lambda i: T.add(i, v.start), "int64")
        return None

    def arr(self, v):
        a = self.as_arr_or_none(v)
        if a is None:
            if isinstance(v, Poison):
                raise Unsupported(v.why)
            raise Unsupported(f"array expected, got {v!r}")
        return a

    def read_arr(self, ref):
        c = self.content(ref)
        if c.view is None:
            a = c.arr
            if ref.env:
                a = self.subst_value(a, dict(ref.env))
            return a
        base, shape, fwd, inv = c.view
        b = self.read_arr(base)
        a = Arr(shape, lambda *I: b.at(*fwd(I)), b.dtype, "np")
        if ref.env:
            a = self.subst_value(a, dict(ref.env))
        return a

    def new_arr(self, a):
        """A fresh numpy array object holding a."""
        if a.kind == "tf":
            return a
        return self.alloc(ArrC(a.with_(kind="np")))

    def result_arr(self, a):
        """Wrap an operation result: 0-d -> scalar, else new array object / tensor."""
        if a.kind == "tf":
            return a
        if a.ndim == 0:
            return self.unscalar(a.at())
        return self.new_arr(a)

    def unscalar(self, t):
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        return t

    def store_arr(self, ref, a):
        c = self.content(ref)
        if ref.env:
            raise Unsupported("write to an array belonging to an object family")
        if c.view is None:
            self.heap[ref.oid] = ArrC(a)
            return
        base, shape, fwd, inv = c.view
        b = self.read_arr(base)

        def fn(*J):
            cond, I = inv(J)
            if cond is FALSE:
                return b.at(*J)
            return T.ite(cond, a.at(*I), b.at(*J))

        self.store_arr(base, b.with_(fn=fn))

    def make_view(self, ref, shape, fwd, inv, layout=None):
        if isinstance(ref, Ref) and isinstance(self.content(ref), ArrC):
            layout = self.content(ref).layout or layout
            return self.alloc(ArrC(None, (ref, tuple(norm_dim(d) for d in shape), fwd, inv), layout if len(shape) > 1 else None))
        a = self.arr(ref)
        r = Arr(shape, lambda *I: a.at(*fwd(I)), a.dtype, a.kind)
        return self.libmod.tf_wrap(self, r) if a.kind == "tf" else self.new_arr(r)

    def list_to_arr(self, v):
        """np.asarray of a (nested) list/tuple."""
        if isinstance(v, tuple):
            segs = [Seg(value=x) for x in v]
        else:
            c = self.content(v)
            segs = c.segs
            if v.env:
                env = dict(v.env)
                segs = [Seg(value=self.subst_value(s.value, env)) if s.single else
                        Seg(self.subst_value(s.length, env) if isinstance(s.length, Term) else s.length, (lambda f: lambda i: self.subst_value(f(i), env))(s.fn)) for s in segs]
        if not segs:
            return Arr((0,), lambda i: T.ZERO, "float64")
        arrs = []
        for s in segs:
            if s.single:
                a = self.as_arr_or_none(s.value)
                if a is None:
                    return None
                arrs.append((1, (lambda a: lambda i: a)(a), a))
            else:
                iv = T.fresh("li", "I", 0, s.length)
                a = self.as_arr_or_none(s.fn(iv))
                if a is None:
                    return None
                for d in a.shape:
                    if isinstance(d, Term) and iv in d.fv:
                        raise Unsupported("ragged list to array")
                arrs.append((s.length, (lambda f: lambda i: self.arr(f(i)))(s.fn), a))
        sh = arrs[0][2].shape
        for n, f, a in arrs[1:]:
            if len(a.shape) != len(sh):
                raise Unsupported("inhomogeneous list to array")
            for d1, d2 in zip(a.shape, sh):
                if not self.same_dim(d1, d2):
                    raise Unsupported("inhomogeneous list to array")
        total = T.ZERO
        for n, f, a in arrs:
            total = T.add(total, n)
        kind = "tf" if any(a.kind == "tf" for _, _, a in arrs) else "np"
        dt = self.libmod.promote([a.dtype for _, _, a in arrs]) if kind == "np" else arrs[0][2].dtype

        def fn(i, *rest):
            off = T.ZERO
            res = None
            pend = []
            for k, (n, f, a) in enumerate(arrs):
                hi = T.add(off, n)
                if k == len(arrs) - 1:
                    pend.append((None, f, off))
                else:
                    c = T.lt(i, hi)
                    if c is TRUE:
                        pend.append((None, f, off))
                        break
                    if c is not FALSE:
                        pend.append((c, f, off))
                off = hi
            c, f, off = pend[-1]
            res = f(T.sub(i, off)).at(*rest)
            for c, f, off in reversed(pend[:-1]):
                if c is None:
                    res = f(T.sub(i, off)).at(*rest)
                else:
                    res = T.ite(c, f(T.sub(i, off)).at(*rest), res)
            return res

        return Arr((norm_dim(total),) + sh, fn, dt, kind)

    def same_dim(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        e = T.eq(T.lift(a), T.lift(b))
        if e is TRUE:
            return True
        if e is FALSE:
            return False
        return smt.entails(self.pc, e)

    def broadcast_shapes(self, s1, s2):
        n = max(len(s1), len(s2))
        a = (1,) * (n - len(s1)) + tuple(s1)
        b = (1,) * (n - len(s2)) + tuple(s2)
        out = []
        for x, y in zip(a, b):
            out.append(self.broadcast_dim(x, y))
        return tuple(out)

    def broadcast_dim(self, x, y):
        if x == 1 and isinstance(x, int):
            return y
        if y == 1 and isinstance(y, int):
            return x
        if isinstance(x, int) and isinstance(y, int):
            if x == y:
                return x
            raise PyRaise(EXC["ValueError"], ("operands could not be broadcast together",))
        if T.eq(T.lift(x), T.lift(y)) is TRUE or smt.entails(self.pc, T.eq(T.lift(x), T.lift(y))):
            return x
        if self.branch(T.eq(T.lift(x), T.lift(y))):
            return x
        if self.branch(T.eq(T.lift(x), 1)):
            return y
        if self.branch(T.eq(T.lift(y), 1)):
            return x
        raise PyRaise(EXC["ValueError"], ("operands could not be broadcast together",))

    def bidx(self, a, shape):
        """Index map from the broadcast shape into array a."""
        off = len(shape) - a.ndim
        pick = []
        for k, d in enumerate(a.shape):
            if d == 1 and isinstance(d, int):
                pick.append(None)
            elif self.same_dim(d, shape[off + k]):
                pick.append(off + k)
            elif smt.entails(self.pc, T.eq(T.lift(d), 1)):
                pick.append(None)
            else:
                raise PyRaise(EXC["ValueError"], ("could not broadcast",))
        return lambda I: tuple(T.ZERO if p is None else I[p] for p in pick)

    def broadcast_to(self, a, shape):
        if a.ndim > len(shape):
            # leading ones may be dropped only if they are 1
            extra = a.ndim - len(shape)
            if all(d == 1 for d in a.shape[:extra]):
                a0 = a
                a = Arr(a0.shape[extra:], lambda *I: a0.at(*([0] * extra), *I), a0.dtype, a0.kind)
            else:
                raise PyRaise(EXC["ValueError"], ("could not broadcast",))
        m = self.bidx(a, shape)
        return Arr(shape, lambda *I: a.at(*m(I)), a.dtype, a.kind)

    # ------------------------------------------------------------- indexing
    def check_index(self, i, n, exc="IndexError"):
        """Python index semantics: a Term in [0, n) or IndexError."""
        i, n = T.lift(i), T.lift(n)
        if i.sort != "I":
            if T.cval(i) is None:
                raise PyRaise(EXC["TypeError"], ("index must be an integer",))
        if self.truth(T.and_(T.ge(i, 0), T.lt(i, n))):
            return i
        if self.branch(T.ge(i, 0)):
            if self.branch(T.lt(i, n)):
                return i
            raise PyRaise(EXC[exc], ("index out of range",))
        if self.branch(T.ge(T.add(i, n), 0)):
            return T.add(i, n)
        raise PyRaise(EXC[exc], ("index out of range",))

    def norm_slice(self, s, n):
        """(start, length, step) with python clipping semantics."""
        step = 1 if s.step is None else s.step
        if isinstance(step, Term):
            c = T.cval(step)
            if c is None:
                raise Unsupported("symbolic slice step")
            step = int(c)
        N = T.lift(n)

        def clip(x, default):
            if x is None:
                return default
            x = T.lift(x)
            if self.truth(T.ge(x, 0)):
                pass
            elif self.truth(T.lt(x, 0)):
                x = T.add(x, N)
                if not self.truth(T.ge(x, 0)):
                    x = T.ite(T.lt(x, 0), T.ZERO, x)
            else:
                x = T.ite(T.lt(x, 0), T.ite(T.lt(T.add(x, N), 0), T.ZERO, T.add(x, N)), x)
            if self.truth(T.le(x, N)):
                return x
            return T.ite(T.lt(N, x), N, x)

        if step == -1:
            if s.lo is None and s.hi is None:
                return T.sub(N, 1), N, -1
            raise Unsupported("negative slice step with bounds")
        if step < 1:
            raise Unsupported("slice step")
        lo = clip(s.lo, T.ZERO)
        hi = clip(s.hi, N)
        ln = T.sub(hi, lo)
        if not self.truth(T.ge(ln, 0)):
            ln = T.ite(T.lt(ln, 0), T.ZERO, ln)
        if step > 1:
            ln = T.idiv(T.add(ln, step - 1), step)
        return lo, ln, step

    def getitem(self, o, i):
        r = self._getitem(o, i)
        return self.libmod.tf_wrap(self, r) if self.tape_count and isinstance(o, Arr) and isinstance(r, Arr) and r.kind == "tf" else r

    def _getitem(self, o, i):
        h = self.libmod.getitem_hook(self, o, i)
        if h is not NotImplemented:
            return h
        if isinstance(o, tuple):
            if isinstance(i, SliceV):
                return o[slice(*[None if x is None else int(x) for x in (i.lo, i.hi, i.step)])]
            k = self.key(i)
            if isinstance(k, Term):
                return self.list_get(ListC.of(o), k)
            try:
                return o[k]
            except IndexError:
                raise PyRaise(EXC["IndexError"])
        if isinstance(o, str):
            if isinstance(i, SliceV) and all(x is None or isinstance(x, int) for x in (i.lo, i.hi, i.step)):
                return o[slice(i.lo, i.hi, i.step)]
            if not isinstance(self.key(i), int):
                raise Unsupported("subscript of a string")
            try:
                return o[self.key(i)]
            except IndexError:
                raise PyRaise(EXC["IndexError"], ("string index out of range",))
        if isinstance(o, Ref):
            c = self.content(o)
            if isinstance(c, ListC):
                if isinstance(i, SliceV):
                    if c.concrete() and not any(isinstance(x, Term) for x in (i.lo, i.hi, i.step)):
                        s = slice(i.lo, i.hi, i.step)
                        return self.alloc(ListC(c.segs[s]))
                    lo, ln, step = self.norm_slice(i, c.length())
                    return self.alloc(ListC([Seg(ln, lambda j: self.list_get(c, T.add(lo, T.mul(step, j)), checked=True))]))
                if isinstance(i, tuple):
                    raise PyRaise(EXC["TypeError"], ("list indices must be integers",))
                v = self.list_get(c, i)
                return self.subst_value(v, dict(o.env)) if o.env else v
            if isinstance(c, DictC):
                k = self.key(i)
                v = self.dict_get(c, k)
                return self.subst_value(v, dict(o.env)) if o.env else v
            if isinstance(c, ArrC):
                return self.arr_getitem(o, i)
        if isinstance(o, Arr):
            return self.arr_getitem(o, i)
        if isinstance(o, Inert):
            return Inert(o.path)
        if o is None or isinstance(o, (int, Fraction)):
            raise PyRaise(EXC["TypeError"], ("not subscriptable",))
        raise Unsupported(f"subscript of {o!r}")

    def dict_get(self, c, k):
        if not isinstance(k, Term) and not any(isinstance(y, Term) for y in c.d):
            if k in c.d:
                return self.force(c.d[k])
            raise PyRaise(EXC["KeyError"], (k,))
        if k in c.d:
            return c.d[k]
        for kk, v in c.d.items():
            if self.branch(T.lift(self.to_bool(self.compare("Eq", k, kk)))):
                return v
        raise PyRaise(EXC["KeyError"], (k,))

    def list_get(self, c, i, checked=False):
        n = c.length()
        if isinstance(i, Term):
            cv = T.cval(i)
            if cv is not None:
                i = int(cv)
        if isinstance(i, int) and c.concrete():
            try:
                return c.segs[i].value
            except IndexError:
                raise PyRaise(EXC["IndexError"], ("list index out of range",))
        if isinstance(i, Fraction):
            raise PyRaise(EXC["TypeError"], ("list indices must be integers",))
        i = T.lift(i) if checked else self.check_index(i, n)
        off = T.ZERO
        for k, s in enumerate(c.segs):
            hi = T.add(off, s.length)
            if k == len(c.segs) - 1 or self.branch(T.lt(i, hi)):
                return s.fn(T.sub(i, off))
            off = hi
        raise PyRaise(EXC["IndexError"], ("list index out of range",))

    def expand_index(self, a, i):
        if not isinstance(i, tuple):
            i = (i,)
        n_real = 0
        for x in i:
            if x is None or x is Ellipsis:
                continue
            n_real += 1
        out = []
        seen = False
        for x in i:
            if x is Ellipsis:
                out += [SliceV(None, None, None)] * (a.ndim - n_real)
                seen = True
            else:
                out.append(x)
        if not seen:
            out += [SliceV(None, None, None)] * (a.ndim - n_real)
        if n_real > a.ndim:
            raise PyRaise(EXC["IndexError"], ("too many indices for array",))
        return out

    def is_index_array(self, x):
        if isinstance(x, (Arr, tuple)):
            return True
        return isinstance(x, Ref) and isinstance(self.content(x), (ArrC, ListC))

    def arr_getitem(self, o, i):
        a = self.arr(o)
        idx = self.expand_index(a, i)
        if any(self.is_index_array(x) and self.arr(x).ndim > 0 for x in idx):
            return self.adv_getitem(o, a, idx)
        shape, picks = [], []  # picks: per base dim: ("int", t) | ("sl", outpos, lo, step, ln)
        d = 0
        for x in idx:
            if x is None:
                shape.append(1)
                continue
            n = a.shape[d]
            if isinstance(x, SliceV):
                if x.lo is None and x.hi is None and x.step is None:
                    lo, ln, st = T.ZERO, n, 1
                else:
                    lo, ln, st = self.norm_slice(x, n)
                picks.append(("sl", len(shape), lo, st, ln))
                shape.append(norm_dim(ln))
            else:
                if isinstance(x, Ref) or isinstance(x, Arr):
                    x = self.arr(x).at()
                if isinstance(x, bool) or not self.is_num(x):
                    raise Unsupported(f"array index {x!r}")
                t = self.check_index(x, n)
                picks.append(("int", t))
            d += 1

        def fwd(I):
            out = []
            for p in picks:
                if p[0] == "int":
                    out.append(p[1])
                else:
                    _, k, lo, st, ln = p
                    out.append(T.add(lo, T.mul(st, I[k])))
            return out

        if not shape:
            t = a.at(*fwd(()))
            if a.kind == "tf":
                return Arr((), lambda: t, a.dtype, "tf")
            return self.unscalar(t)
        rank = len(shape)

        def inv(J):
            cond = TRUE
            I = [T.ZERO] * rank
            for p, j in zip(picks, J):
                if p[0] == "int":
                    cond = T.and_(cond, T.eq(j, p[1]))
                else:
                    _, k, lo, st, ln = p
                    if st == 1:
                        I[k] = T.sub(j, lo)
                        if lo is not T.ZERO:
                            cond = T.and_(cond, T.ge(I[k], 0))
                        cond = T.and_(cond, T.lt(I[k], ln))
                    elif st == -1:
                        I[k] = T.sub(lo, j)
                    else:
                        q, r = T.idivmod(T.sub(j, lo), T.lift(st))
                        I[k] = q
                        cond = T.and_(cond, T.eq(r, 0), T.ge(T.sub(j, lo), 0), T.lt(q, ln))
            return cond, tuple(I)

        sl = [p for p in picks if p[0] == "sl"]
        rest = picks[picks.index(sl[0]) + 1:]
        whole = all(p[0] == "sl" and p[3] == 1 and p[2] is T.ZERO and self.same_dim(p[4], n) for p, n in zip(rest, a.shape[len(picks) - len(rest):]))
        return self.make_view(o, shape, fwd, inv, None if whole and sl[0][3] == 1 else "strided")

    def adv_getitem(self, o, a, idx):
        arrays = [(k, self.arr(x)) for k, x in enumerate(idx) if x is not None and not isinstance(x, SliceV) and self.is_index_array(x) and self.arr(x).ndim > 0]
        if any(isinstance(x, Term) or isinstance(x, int) for x in idx if not isinstance(x, SliceV) and x is not None) and len(arrays) >= 1 and len(idx) > 1:
            # mixing scalars with arrays: treat scalars as broadcast arrays only if adjacent
            pass
        if any(x is None for x in idx):
            raise Unsupported("newaxis with advanced indexing")
        if any(ar.dtype == "bool" for _, ar in arrays):
            return self.libmod.mask_getitem(self, o, a, idx)
        pos = [k for k, _ in arrays]
        if pos != list(range(pos[0], pos[0] + len(pos))):
            raise Unsupported("non-adjacent advanced indices")
        bshape = arrays[0][1].shape
        for _, ar in arrays[1:]:
            bshape = self.broadcast_shapes(bshape, ar.shape)
        # index range check for a generic position
        maps = []
        for k, ar in arrays:
            g = [T.fresh("gi", "I", 0, d) for d in ar.shape]
            t = ar.at(*g)
            n = T.lift(a.shape[k])
            if not self.truth(T.and_(T.ge(t, 0), T.lt(t, n))):
                if self.truth(T.and_(T.ge(t, T.neg(n)), T.lt(t, n))) is not True:
                    ok = self.libmod.index_in_range(self, ar, n)
                    if ok is not True:
                        raise Unsupported("cannot bound an index array")
            maps.append((ar, self.bidx(ar, bshape)))
        plan, shape = [], []
        done = False
        for k, x in enumerate(idx):
            if k in pos:
                if not done:
                    start = len(shape)
                    shape += list(bshape)
                    done = True
                plan.append(("adv", pos.index(k), start))
            elif isinstance(x, SliceV):
                lo, ln, st = self.norm_slice(x, a.shape[k])
                plan.append(("sl", len(shape), lo, st))
                shape.append(norm_dim(ln))
            else:
                plan.append(("int", self.check_index(x, a.shape[k])))
        nb = len(bshape)

        def fn(*I):
            out = []
            for k, p in enumerate(plan):
                if p[0] == "adv":
                    ar, m = maps[p[1]]
                    t = ar.at(*m(I[p[2]:p[2] + nb]))
                    if not T.le0(T.neg(t)) is TRUE and not T.nonneg(t):
                        n = T.lift(a.shape[k])
                        if self.truth(T.ge(t, 0)) is not True:
                            t = T.ite(T.lt(t, 0), T.add(t, n), t)
                    out.append(t)
                elif p[0] == "sl":
                    out.append(T.add(p[2], T.mul(p[3], I[p[1]])))
                else:
                    out.append(p[1])
            return a.at(*out)

        r = Arr(shape, fn, a.dtype, a.kind)
        return r if a.kind == "tf" else self.new_arr(r)

    def setitem(self, o, i, v):
        h = self.libmod.setitem_hook(self, o, i, v)
        if h is not NotImplemented:
            return h
        if isinstance(o, Ref):
            c = self.content(o)
            if isinstance(c, DictC):
                if o.env:
                    raise Unsupported("write to family dict")
                k = self.key(i)
                d = dict(c.d)
                if isinstance(k, Term) and k not in d:
                    if d:
                        raise Unsupported("symbolic dictionary key")
                d[k] = v
                self.heap[o.oid] = DictC(d)
                return
            if isinstance(c, ListC):
                if o.env:
                    raise Unsupported("write to family list")
                if c.concrete() and not isinstance(i, (Term, SliceV)):
                    n = len(c.segs)
                    if not -n <= i < n:
                        raise PyRaise(EXC["IndexError"])
                    s = list(c.segs)
                    s[i] = Seg(value=v)
                    self.heap[o.oid] = ListC(s)
                    return
                if len(c.segs) == 1 and not c.segs[0].single and (isinstance(i, Term) or isinstance(i, int)):
                    seg, i = c.segs[0], T.lift(i)
                    n = T.lift(seg.length)
                    if self.truth(T.lt(i, 0)) is True:
                        i = T.add(i, n)
                    if not self.branch(T.and_(T.ge(i, 0), T.lt(i, n))):
                        if self.branch(T.or_(T.ge(i, n), T.lt(i, T.neg(n)))):
                            raise PyRaise(EXC["IndexError"], ("list assignment index out of range",))
                        i = T.add(i, n)

                    def fn(j):
                        same = T.eq(T.lift(j), i)
                        r = self.truth(same)
                        if r is not None:
                            return v if r else seg.fn(j)
                        old = seg.fn(j)
                        if self.is_num(v) and self.is_num(old):
                            return T.ite(same, T.lift(v), T.lift(old))
                        raise Unsupported("element of a list after an item assignment")
                    self.heap[o.oid] = ListC([Seg(n, fn, assigned=(i, v, seg))])
                    return
                raise Unsupported("item assignment in a symbolic list")
            if isinstance(c, ArrC):
                return self.arr_setitem(o, i, v)
        if isinstance(o, Arr):
            raise PyRaise(EXC["TypeError"], ("tensor does not support item assignment",))
        raise Unsupported(f"item assignment on {o!r}")

    def arr_setitem(self, o, i, v):
        a = self.arr(o)
        idx = self.expand_index(a, i)
        if any(self.is_index_array(x) and self.arr(x).ndim > 0 for x in idx if x is not None and not isinstance(x, SliceV)):
            raise Unsupported("assignment through an index array")
        view = self.arr_getitem(o, i)
        val = self.as_arr_or_none(v)
        if val is None:
            raise Unsupported(f"assign {v!r} into array")
        if isinstance(view, Ref):
            tgt = self.arr(view)
            b = self.broadcast_to(val, tgt.shape)
            c = self.content(view)
            if c.view is None:
                raise Unsupported("assignment target is not a view")
            self.store_arr(view, self.cast_to(b, a.dtype))
            return
        # scalar element
        picks = []
        for x, n in zip(idx, a.shape):
            if isinstance(x, (Ref, Arr)):
                x = self.arr(x).at()
            picks.append(self.check_index(x, n))
        if val.ndim:
            if all(d == 1 for d in val.shape):
                t = val.at(*[0] * val.ndim)
            else:
                raise PyRaise(EXC["ValueError"], ("setting an array element with a sequence",))
        else:
            t = val.at()
        t = self.cast_to(Arr((), lambda: t, val.dtype), a.dtype).at()

        def fn(*J):
            return T.ite(T.and_(*[T.eq(j, p) for j, p in zip(J, picks)]), t, a.at(*J))

        self.store_arr(o, a.with_(fn=fn))

    def cast_to(self, b, dtype):
        if dtype == "int64" and b.dtype not in ("int64", "bool"):
            return b.with_(fn=lambda *I: self.libmod.to_int_term(b.at(*I)), dtype=dtype)
        if b.dtype == "bool" and dtype != "bool":
            return b.with_(fn=lambda *I: T.ite(b.at(*I), T.ONE, T.ZERO), dtype=dtype)
        return b.with_(dtype=dtype)

    # ------------------------------------------------------------- attributes
    def getattr(self, o, name):
        if isinstance(o, Ref):
            c = self.content(o)
            if isinstance(c, InstC):
                return self.inst_getattr(o, c, name)
            m = self.libmod.ref_attr(self, o, c, name)
            if m is not NotImplemented:
                return m
            if self.has_attr_for_real(c, name):
                raise Unsupported(f"attribute {name} of {type(c).__name__}")
            raise PyRaise(EXC["AttributeError"], (name,))
        if isinstance(o, SuperV):
            mro = None
            cls = self.content(o.self_).cls
            chain = cls.mro()
            k = chain.index(o.cls)
            for c in chain[k + 1:]:
                if name in c.attrs:
                    f = c.attrs[name]
                    return BoundMethod(f.fn if isinstance(f, PropertyV) else f, o.self_)
            return self.libmod.ext_super(self, o, name)
        if isinstance(o, Cls):
            if name == "__name__":
                return o.name
            v = self.cls_lookup(o, name)
            if v is not MISSING:
                if isinstance(v, PropertyV) and v.kind != "property":
                    return v.fn if v.kind == "staticmethod" else BoundMethod(v.fn, o)
                return v
            raise PyRaise(EXC["AttributeError"], (name,))
        if isinstance(o, RepoModule):
            fr = self.module_frame(o)
            if name in fr:
                return fr[name]
            if self.repo_has(o.name + "." + name):
                return self.load_module(o.name + "." + name)
            raise PyRaise(EXC["AttributeError"], (name,))
        if isinstance(o, ExtModule):
            return self.ext_attr(o, name)
        if isinstance(o, Inert):
            return Inert(o.path + "." + name)
        m = self.libmod.value_attr(self, o, name)
        if m is not NotImplemented:
            return m
        if (o is None or isinstance(o, (int, str, tuple, bool))) and not hasattr(o, name):
            raise PyRaise(EXC["AttributeError"], (f"{o!r}.{name}",))
        raise Unsupported(f"attribute {name} of {o!r}")

    @staticmethod
    def has_attr_for_real(c, name):
        """Whether the Python object an unknown attribute is asked of has it (then it is only outside the subset)."""
        if isinstance(c, ListC):
            return hasattr([], name) or hasattr(set(), name)
        if isinstance(c, (DictC, SymDictC)):
            return hasattr({}, name)
        return True

    def ext_attr(self, mod, name):
        path = mod.path + "." + name
        r = self.libmod.resolve(path)
        if r is not None or path in self.libmod.VALUES:
            return r
        return ExtModule(path)

    def inst_getattr(self, o, c, name):
        if name == "__class__":
            return c.cls
        if name == "__dict__":
            raise Unsupported("__dict__")
        for oid, attrs, k in self.family_guards:
            # other members may have been assigned by earlier iterations
            if o.oid == oid and name in attrs and not any(t is k for _, t in o.env):
                raise Unsupported("attribute of another object in a loop that assigns it")
        found = False
        if name in c.attrs:
            v = self.force(c.attrs[name])
            found = True
            if o.env:
                v = self.subst_value(v, dict(o.env))
        # overlays on object families, oldest first
        for ov in c.overlays:
            if ov.attr != name:
                continue
            v = self.apply_overlay(ov, o, v if found else Poison(name))
            found = True
        if found:
            return self.force(v, None, name)
        cls = c.cls
        if isinstance(cls, Cls):
            f = self.cls_lookup(cls, name)
            if f is not MISSING:
                if isinstance(f, PropertyV):
                    if f.kind == "property":
                        return self.call(f.fn, [o], {})
                    if f.kind == "staticmethod":
                        return f.fn
                    return BoundMethod(f.fn, c.cls)
                if isinstance(f, Func):
                    return BoundMethod(f, o)
                return f
            r = self.libmod.ext_inst_attr(self, o, c, name)
            if r is not NotImplemented:
                return r
        else:
            r = self.libmod.ext_inst_attr(self, o, c, name)
            if r is not NotImplemented:
                return r
        raise PyRaise(EXC["AttributeError"], (f"{getattr(cls, 'name', cls)}.{name}",))

    def apply_overlay(self, ov, o, old):
        """Value of an overlaid attribute at instance environment o.env."""
        env = dict(o.env)
        cond = TRUE
        m = {}
        for v, t in ov.env:
            cur = env.get(v)
            if cur is None:
                cur = v  # the generic instance itself
            if ov.var is not None and t is ov.var:
                m[ov.var] = cur
                cond = T.and_(cond, T.ge(cur, 0), T.lt(cur, ov.K))
            else:
                cond = T.and_(cond, T.eq(cur, T.subst(t, m) if m else t))
        val = self.subst_value(ov.value, m) if m else ov.value
        r = self.truth(cond)
        if r is True:
            return val
        if r is False:
            return old
        if isinstance(old, Poison):
            if self.branch(cond):
                return val
            return old
        if self.branch(cond):
            return val
        return old

    def setattr(self, o, name, v):
        if isinstance(o, Ref):
            c = self.content(o)
            if isinstance(c, InstC):
                if o.env:
                    ov = Overlay(o.env, name, v)
                    self.heap[o.oid] = InstC(c.cls, c.attrs, c.overlays + (ov,))
                    return
                h = self.libmod.setattr_hook(self, o, c, name, v)
                if h is not NotImplemented:
                    v = h
                d = dict(self.content(o).attrs)
                d[name] = v
                self.heap[o.oid] = InstC(c.cls, d, c.overlays)
                return
        if isinstance(o, (Inert,)):
            return
        if isinstance(o, Cls):
            c = self.heap.get(o.dyn)
            if c is None or isinstance(v, (Func, PropertyV)) or name.startswith("__"):
                raise Unsupported(f"assignment to {o.name}.{name}")
            d = dict(c.vars)
            d[name] = v
            self.heap[o.dyn] = FrameC(d)
            return
        raise Unsupported(f"attribute assignment on {o!r}")

    def cls_lookup(self, cls, name):
        """An attribute of a class: assigned since (in the heap) or written in its body."""
        for c in cls.mro():
            d = self.heap.get(c.dyn)
            if d is not None and name in d.vars:
                return self.force(d.vars[name], c.dyn, name)
            if name in c.attrs:
                return c.attrs[name]
        return MISSING

    # ------------------------------------------------------------- calls
    def call_method(self, o, name, args, kw):
        return self.call(self.getattr(o, name), args, kw)

    def call(self, fn, args, kw):
        if isinstance(fn, BoundMethod):
            if isinstance(fn.fn, LibFn):
                return fn.fn.fn(self, fn.self_, *args, **kw)
            return self.call(fn.fn, [fn.self_] + list(args), kw)
        if isinstance(fn, Func):
            return self.call_func(fn, args, kw)
        if isinstance(fn, LibFn):
            if fn.name:
                self.trusted.add(fn.name)
            try:
                r = fn.fn(self, *args, **kw)
                return self.libmod.tf_wrap(self, r) if self.tape_count and fn.name.startswith("tensorflow.") and isinstance(r, Arr) and r.kind == "tf" else r
            except TypeError as e:
                if "argument" in str(e) and ("unexpected" in str(e) or "positional" in str(e) or "required" in str(e)):
                    raise Unsupported(f"call of {fn.name}: {e}")
                raise
        if isinstance(fn, Cls):
            return self.instantiate(fn, args, kw)
        if isinstance(fn, ExcCls):
            return PyRaise(fn, args)
        if isinstance(fn, SymCallable):
            return fn.call(self, *args, **kw)
        if isinstance(fn, Inert):
            if fn.path in self.libmod.LIB:
                return self.call(self.libmod.LIB[fn.path], list(args), dict(kw))
            return Inert(fn.path + "()")
        if isinstance(fn, DTypeV):
            return self.libmod.dtype_call(self, fn, *args, **kw)
        if isinstance(fn, Ref):
            c = self.content(fn)
            if isinstance(c, InstC):
                if isinstance(c.cls, Cls):
                    f = c.cls.lookup("__call__")
                    if f is not None:
                        return self.call(BoundMethod(f, fn), args, kw)
                return self.libmod.call_inst(self, fn, c, args, kw)
        if isinstance(fn, Opaque) and "__call__" in fn.attrs:
            f = fn.attrs["__call__"]
            self.trusted.add(f.name)
            return f.fn(self, fn, *args, **kw)
        if isinstance(fn, ExtModule):
            return self.libmod.unknown_call(self, fn.path, args, kw)
        if fn is None or isinstance(fn, (int, str, tuple, Term, Fraction)):
            raise PyRaise(EXC["TypeError"], ("object is not callable",))
        raise Unsupported(f"call of {fn!r}")

    def instantiate(self, cls, args, kw):
        o = self.alloc(InstC(cls, {}))
        init = cls.lookup("__init__")
        if init is not None:
            self.call(BoundMethod(init, o), args, kw)
        else:
            self.libmod.ext_init(self, o, cls, args, kw)
        return o

    def bind(self, fn, args, kw):
        a = fn.node.args
        names = [x.arg for x in getattr(a, "posonlyargs", [])] + [x.arg for x in a.args]
        vals = {}
        if len(args) > len(names) and a.vararg is None:
            raise PyRaise(EXC["TypeError"], (f"{fn.name}() takes {len(names)} positional arguments",))
        for n, v in zip(names, args):
            vals[n] = v
        if a.vararg is not None:
            vals[a.vararg.arg] = tuple(args[len(names):])
        extra = {}
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in vals:
                    raise PyRaise(EXC["TypeError"], (f"multiple values for argument {k}",))
                vals[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise PyRaise(EXC["TypeError"], (f"{fn.name}() got an unexpected keyword argument {k}",))
        if a.kwarg is not None:
            vals[a.kwarg.arg] = self.alloc(DictC(extra))
        nd = len(fn.defaults)
        for n, d in zip(names[len(names) - nd:], fn.defaults):
            vals.setdefault(n, d)
        for n, d in fn.kwdefaults.items():
            vals.setdefault(n, d)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in vals:
                raise PyRaise(EXC["TypeError"], (f"{fn.name}() missing argument {n}",))
        return vals

    def call_func(self, fn, args, kw):
        ov = self.overrides.get(fn.qual)
        if ov is not None:
            return ov(self, *args, **kw)
        if self.depth > MAX_DEPTH:
            raise Unsupported("call depth")
        if fn.qual in self.opaque:
            label = self.opaque[fn.qual]
            return self.hide(label, self.call_body(fn, args, kw))
        return self.call_body(fn, args, kw)

    def hide(self, label, v):
        """Generalisation: every returned array is replaced by one whose entries are uninterpreted (structurally equal results keep equal names)."""
        if isinstance(v, tuple):
            return tuple(self.hide(label, x) for x in v)
        if isinstance(v, Ref) and isinstance(self.content(v), ListC):
            items = self.concrete_items(v)
            return self.alloc(ListC.of([self.hide(label, x) for x in items]))
        if not (isinstance(v, Arr) or (isinstance(v, Ref) and isinstance(self.content(v), ArrC))):
            return v
        a = self.arr(v)
        sh = tuple(T.lift(d) for d in a.shape)
        idx = []
        for k, d in enumerate(sh):
            key = ("idx", k, d)
            if key not in self._opaque_keys:
                self._opaque_keys[key] = T.fresh("h", "I", 0, d)
            idx.append(self._opaque_keys[key])
        body = a.at(*idx)
        ent = self._opaque_keys.get(("body", label, body))
        if ent is None:
            fv = sorted((x for x in body.fv if x not in idx), key=lambda x: x.args[0])
            ent = (f"{label}#{len(self._opaque_keys)}", tuple(fv))
            self._opaque_keys[("body", label, body)] = ent
        name, fv = ent
        sort = body.sort
        return self.new_arr(Arr(a.shape, lambda *I: T.rawapp(name, tuple(T.lift(i) for i in I) + fv, sort), a.dtype, a.kind))

    def call_body(self, fn, args, kw):
        self.calls.add(fn.qual)
        vals = self.bind(fn, args, kw)
        gen = generator_body(fn.node)
        if gen is not None:
            vals["__yielded__"] = self.alloc(ListC([]))
        fr = self.alloc(FrameC(vals))
        self.obj_params.pop(fr.oid, None)
        self.parent[fr.oid] = fn.frame
        if not isinstance(fn.node, ast.Lambda):
            self.localnames[fr.oid] = local_names(fn.node)
        saved = (self.frame, getattr(self, "cur_func", None), getattr(self, "cur_module", None))
        self.frame, self.cur_func, self.cur_module = fr.oid, fn, fn.module
        self.depth += 1
        try:
            if isinstance(fn.node, ast.Lambda):
                return self.eval(fn.node.body)
            self.exec_block(gen if gen is not None else fn.node.body)
            return None if gen is None else self.heap[fr.oid].vars["__yielded__"]
        except ReturnFlow as r:
            return r.value if gen is None else self.heap[fr.oid].vars["__yielded__"]
        finally:
            self.depth -= 1
            self.frame, self.cur_func, self.cur_module = saved

    # ------------------------------------------------------------- substitution of loop variables
    def subst_value(self, v, m):
        if not m:
            return v
        if isinstance(v, Term):
            return T.subst(v, m)
        if isinstance(v, Arr):
            sh = tuple(T.subst(d, m) if isinstance(d, Term) else d for d in v.shape)
            return Arr(sh, lambda *I: T.subst(v.at(*I), m), v.dtype, v.kind, v.tag)
        if isinstance(v, tuple):
            return tuple(self.subst_value(x, m) for x in v)
        if isinstance(v, Ref):
            p = self.obj_params.get(v.oid)
            if not p:
                return v
            env = dict(v.env)
            env = {k: T.subst(t, m) for k, t in env.items()}
            for k in p:
                if k in m and k not in env:
                    env[k] = T.lift(m[k])
            return Ref(v.oid, tuple(sorted(env.items(), key=lambda kv: kv[0].id)))
        if isinstance(v, SymSeq):
            return SymSeq(T.subst(v.n, m) if isinstance(v.n, Term) else v.n, lambda i: self.subst_value(v.fn(i), m))
        if isinstance(v, BoundMethod):
            return BoundMethod(v.fn, self.subst_value(v.self_, m))
        if isinstance(v, Opaque):
            if v.attrs:
                return Opaque(v.label, {k: self.subst_value(x, m) for k, x in v.attrs.items()})
            return v
        if isinstance(v, SymCallable):
            s = getattr(v, "subst", None)
            return s(m) if s else v
        if isinstance(v, (LastValue,)):
            return LastValue(self.subst_value(v.v0, m) if v.v0 is not None else None, T.subst(T.lift(v.K), m), lambda: self.subst_value(v.make(), m))
        return v

    def fresh_arr(self, name, shape, dtype="float64", kind="np"):
        s = "I" if dtype == "int64" else "B" if dtype == "bool" else "R"
        return Arr(shape, lambda *I: T.rawapp(name, I, s), dtype, kind)


class Overlay:
    __slots__ = ("env", "attr", "value", "var", "K")

    def __init__(self, env, attr, value, var=None, K=None):
        self.env, self.attr, self.value, self.var, self.K = env, attr, value, var, K


_ln = {}


_gens = {}


class _Yields(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        return n

    visit_Lambda = visit_FunctionDef

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Yield):
            c = ast.Call(ast.Attribute(ast.Name("__yielded__", ast.Load()), "append", ast.Load()), [n.value.value or ast.Constant(None)], [])
            return ast.copy_location(ast.fix_missing_locations(ast.Expr(c)), n)
        return n


def generator_body(node):
    """A generator without side effects is run to its end when it is created; the sequence it yields is its value."""
    if isinstance(node, ast.Lambda):
        return None
    if node not in _gens:
        own = []

        def walk(n):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                own.append(c)
                walk(c)
        walk(ast.Module(body=node.body, type_ignores=[]))
        ys = [c for c in own if isinstance(c, (ast.Yield, ast.YieldFrom))]
        if not ys:
            _gens[node] = None
        else:
            stmts = [c.value for c in own if isinstance(c, ast.Expr)]
            bad = any(isinstance(c, (ast.Subscript, ast.Attribute)) and isinstance(c.ctx, ast.Store) for c in own) or any(isinstance(c, (ast.Global, ast.Nonlocal, ast.AugAssign, ast.While)) for c in own)
            bad = bad or any(y not in stmts or isinstance(y, ast.YieldFrom) for y in ys)
            if bad:
                _gens[node] = "bad"
            else:
                import copy
                _gens[node] = [_Yields().visit(copy.deepcopy(st)) for st in node.body]
    if _gens[node] == "bad":
        raise Unsupported("generator")
    return _gens[node]


def local_names(node):
    r = _ln.get(node)
    if r is None:
        r = set()
        skip = set()

        def walk(n):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                    r.add(c.name)
                    continue
                if isinstance(c, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)):
                    continue
                if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Store):
                    r.add(c.id)
                if isinstance(c, (ast.Global, ast.Nonlocal)):
                    skip.update(c.names)
                walk(c)

        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                r.add(st.name)
            walk(ast.Module(body=[st], type_ignores=[]) if not isinstance(st, (ast.FunctionDef, ast.ClassDef)) else ast.Module(body=[], type_ignores=[]))
        r -= skip
        _ln[node] = r
    return r


class Merger:
    """Joins two states under condition c (c selects a)."""

    def __init__(self, it, c, a, b):
        self.it, self.c, self.a, self.b = it, c, a, b
        self.common = set()
        self.memo = {}
        self.heap = None

    def merge_content(self, x, y, oid):
        if x is y:
            return x
        h = self.it.libmod.merge_dicts(self, x, y)
        if h is not NotImplemented:
            return h
        if type(x) is not type(y):
            raise MergeFail()
        if isinstance(x, FrameC):
            d = {}
            for k in list(x.vars) + [k for k in y.vars if k not in x.vars]:
                if k in x.vars and k in y.vars:
                    try:
                        d[k] = self.merge_value(x.vars[k], y.vars[k])
                    except MergeFail:
                        if not self.it.lenient_merge:
                            raise
                        d[k] = Poison(f"{k} differs between branches")
                else:
                    d[k] = Poison(f"{k} assigned on one branch only")
            return FrameC(d)
        if isinstance(x, InstC):
            if x.cls is not y.cls or x.overlays != y.overlays:
                raise MergeFail()
            d = {}
            for k in list(x.attrs) + [k for k in y.attrs if k not in x.attrs]:
                if k in x.attrs and k in y.attrs:
                    d[k] = self.merge_value(x.attrs[k], y.attrs[k])
                else:
                    raise MergeFail()
            return InstC(x.cls, d, x.overlays)
        if isinstance(x, DictC):
            if list(x.d) != list(y.d):
                raise MergeFail()
            return DictC({k: self.merge_value(x.d[k], y.d[k]) for k in x.d})
        if isinstance(x, ListC):
            if len(x.segs) != len(y.segs):
                raise MergeFail()
            out = []
            for s, t in zip(x.segs, y.segs):
                if s is t:
                    out.append(s)
                elif s.single and t.single:
                    out.append(Seg(value=self.merge_value(s.value, t.value)))
                elif not s.single and not t.single and s.length is t.length or s.length == t.length:
                    out.append(Seg(s.length, (lambda s, t: lambda i: self.merge_value(s.fn(i), t.fn(i)))(s, t)))
                else:
                    raise MergeFail()
            return ListC(out)
        if isinstance(x, ArrC):
            if x.view is not None or y.view is not None:
                raise MergeFail()
            return ArrC(self.merge_arr(x.arr, y.arr))
        raise MergeFail()

    def merge_arr(self, a, b):
        if a is b:
            return a
        if a.kind != b.kind or len(a.shape) != len(b.shape):
            raise MergeFail()
        shape = []
        for d, e in zip(a.shape, b.shape):
            if d == e if isinstance(d, int) and isinstance(e, int) else T.eq(T.lift(d), T.lift(e)) is TRUE:
                shape.append(d)
            elif self.it.lenient_merge and a.kind == "tf":
                shape.append(T.ite(self.c, T.lift(d), T.lift(e)))
            else:
                raise MergeFail()
        if a.dtype != b.dtype:
            raise MergeFail()
        c = self.c
        return Arr(tuple(shape), lambda *I: T.ite(c, a.at(*I), b.at(*I)), a.dtype, a.kind)

    def merge_value(self, a, b):
        if a is b:
            return a
        if isinstance(a, Poison) or isinstance(b, Poison):
            return Poison("merged unknown")
        num = lambda v: isinstance(v, (bool, int, Fraction)) or isinstance(v, Term)
        if num(a) and num(b):
            ta, tb = T.lift(a), T.lift(b)
            if ta is tb:
                return a if isinstance(a, Term) == isinstance(b, Term) else ta
            if ta.sort == tb.sort or (ta.sort in "IR" and tb.sort in "IR"):
                return T.ite(self.c, ta, tb)
            raise MergeFail()
        if isinstance(a, str) and isinstance(b, str) and a == b:
            return a
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge_value(x, y) for x, y in zip(a, b))
        if isinstance(a, Arr) and isinstance(b, Arr):
            return self.merge_arr(a, b)
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a == b:
                return a
            if a.env or b.env:
                raise MergeFail()
            key = (a.oid, b.oid)
            if key in self.memo:
                return self.memo[key]
            ca, cb = self.a.heap[a.oid], self.b.heap[b.oid]
            if isinstance(ca, ArrC) and isinstance(cb, ArrC):
                r = self.it.alloc(ArrC(None))
                self.memo[key] = r
                sa, sb = self.it.heap, None
                it = self.it
                saved = it.heap
                it.heap = self.a.heap
                xa = it.read_arr(a)
                it.heap = self.b.heap
                xb = it.read_arr(b)
                it.heap = saved
                self.heap[r.oid] = ArrC(self.merge_arr(xa, xb))
                it.heap[r.oid] = self.heap[r.oid]
                return r
            if isinstance(ca, (ListC, DictC, InstC)) and type(ca) is type(cb):
                r = self.it.alloc(None)
                self.memo[key] = r
                cont = self.merge_content(ca, cb, r.oid)
                self.heap[r.oid] = cont
                self.it.heap[r.oid] = cont
                return r
            raise MergeFail()
        if isinstance(a, BoundMethod) and isinstance(b, BoundMethod) and a.fn is b.fn:
            return BoundMethod(a.fn, self.merge_value(a.self_, b.self_))
        if isinstance(a, (Inert, Opaque)) and isinstance(b, (Inert, Opaque)):
            if isinstance(a, Inert) and isinstance(b, Inert):
                return a
            if isinstance(a, Opaque) and isinstance(b, Opaque) and a.label == b.label == "Dense" and list(a.attrs) == list(b.attrs):
                return Opaque(a.label, {k: self.merge_value(a.attrs[k], b.attrs[k]) for k in a.attrs})
            raise MergeFail()
        if type(a) == type(b) and not isinstance(a, (Ref, Arr, Func, LastValue, SymSeq)):
            try:
                if a == b:
                    return a
            except TypeError:
                pass
        raise MergeFail()

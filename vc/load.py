"""Mechanical extraction: executes /repo's current source with symbolic stand-ins for numpy, the builtins and loops.

What the extraction changes: (1) names np, math, copy, scipy, autoarray, warnings and the builtins len, range, min, ...
are bound to the stand-ins of arrays.py; (2) a `for` loop becomes a call of rt.loop with its body as a nested function and
a comprehension becomes a call of rt.comp; (3) .pyx files lose C type declarations, decorators (their wraparound flag is
kept), `nogil` and cimports; C integers are mathematical, doubles are reals, and malloc'ed rows are arrays."""
import ast, builtins, copy, os, re, sys, types
from . import core, arrays, loops
from . import terms as T
from .terms import Unsupported

PKG = "arcticpy"


class Undef:
    def __getattr__(self, n):
        raise Unsupported("use of an unassigned variable")

    def __bool__(self):
        raise Unsupported("use of an unassigned variable")

    def __deepcopy__(self, memo):
        return self


UNDEF = Undef()


# ------------------------------------------------------------------ .pyx to Python

CTYPE = r"(?:np\.\w+_t|double|float|int|long|bint|size_t|Py_ssize_t|void|object|unsigned\s+\w+|long\s+long)"
TYPE = CTYPE + r"(?:\s*\[[:,\s\d]*\])?(?:\s*\*)?"
OKT = {"np.float64_t", "np.int64_t", "np.uint8_t", "double", "void", "int", "long", "Py_ssize_t", "object", "bint", "size_t"}
MODE = r"(?:\s+not\s+None)?"


def check_type(t):
    base = re.sub(r"[\[\*].*", "", t).strip()
    if base not in OKT:
        raise Unsupported("C type %s" % t)
    return base


INTS = {"np.int64_t", "int", "long", "Py_ssize_t", "size_t"}


def strip_params(s):
    out, depth, cur = [], 0, ""
    for ch in s + ",":
        if ch in "([{":
            depth += 1
        if ch in ")]}":
            depth -= 1
        if ch == "," and depth == 0:
            p = cur.strip()
            m = re.match(r"^(%s)\s+(\w+)%s(\s*=.*)?$" % (TYPE, MODE), p, re.S)
            if m:
                check_type(m.group(1))
                p = m.group(2) + (m.group(3) or "")
            if p:
                out.append(p)
            cur = ""
        else:
            cur += ch
    return ", ".join(out)


def pyx_to_py(src):
    src = src.replace("\r\n", "\n")
    src = re.sub(r"\\\n\s*", " ", src)
    src = re.sub(r"\bcimport\s+cython\b", "pass", src)
    lines = src.split("\n")
    out = []
    wrap = True
    i = 0
    ints = {}
    while i < len(lines):
        l = lines[i]
        s = l.strip()
        ind = l[:len(l) - len(l.lstrip())]
        if re.match(r"^(from\s+\S+\s+)?cimport\b", s):
            out.append(ind + "pass")
            i += 1
            continue
        m = re.match(r"^@cython\.(\w+)\((.*)\)", s)
        if m:
            if m.group(1) == "wraparound":
                wrap = m.group(2).split("#")[0].strip() == "True"
            elif m.group(1) not in ("boundscheck", "nonecheck"):
                raise Unsupported("decorator cython.%s" % m.group(1))
            i += 1
            continue
        m = re.match(r"^(cpdef|cdef)\s+(inline\s+)?((%s)\s+)?(\w+)\s*\(" % TYPE, s)
        if m and not re.match(r"^cdef\s+%s\s+\w+\s*=" % TYPE, s):
            # a function: join to the closing line
            full = l
            while not re.search(r"\)\s*(?:nogil|noexcept|except\s*[\-\*?\d]*|\s)*:\s*(#.*)?$", full):
                i += 1
                full += "\n" + lines[i]
            a = full.index("(")
            b = full.rindex(")")
            if m.group(4):
                check_type(m.group(4))
            out.append("%s@vcrt_.kernel(%s)" % (ind, wrap))
            out.append("%sdef %s(%s):" % (ind, m.group(5), strip_params(full[a + 1:b])))
            wrap = True
            i += 1
            continue
        m = re.match(r"^def\s+\w+\s*\(", s)
        if m and out and not ind:
            full = l
            while not re.search(r"\)\s*:\s*(#.*)?$", full):
                i += 1
                full += "\n" + lines[i]
            a = full.index("(")
            b = full.rindex(")")
            out.append("@vcrt_.kernel(%s)" % wrap)
            out.append("%s(%s):" % (full[:a].strip(), strip_params(full[a + 1:b])))
            wrap = True
            i += 1
            continue
        m = re.match(r"^cdef\s+(%s)\s+(.*)$" % TYPE, s, re.S)
        if m:
            base = check_type(m.group(1))
            rest = m.group(2).split("#")[0].strip() if "#" in m.group(2) else m.group(2)
            scalar = "[" not in m.group(1) and "*" not in m.group(1)
            if "=" in rest and "==" not in rest.split("=")[0]:
                name, e = rest.split("=", 1)
                out.append("%s%s = %s" % (ind, name.strip().lstrip("*").strip(), e.strip()))
            else:
                out.append(ind + "pass")
            i += 1
            continue
        if re.match(r"^cdef\b|^ctypedef\b|^cpdef\b", s):
            raise Unsupported("Cython declaration: " + s[:60])
        out.append(l)
        i += 1
    t = "\n".join(out)
    t = re.sub(r"with\s+(no)?gil\s*:", "if True:", t)
    t = re.sub(r"<\s*%s\s*>\s*malloc\s*\(\s*sizeof\s*\(\s*[\w\.]+\s*\)\s*\*\s*" % TYPE, "vcrt_.malloc(", t)
    t = re.sub(r"<\s*%s\s*>\s*malloc\s*\(\s*(.*?)\*\s*sizeof\s*\(\s*[\w\.]+\s*\)\s*\)" % TYPE, r"vcrt_.malloc(\1)", t)
    t = re.sub(r"\bfree\s*\((\w+)\)", r"vcrt_.free(\1)", t)
    t = re.sub(r"<\s*(np\.int64_t|int|long)\s*>", "", t)
    t = re.sub(r"<\s*(np\.float64_t|double)\s*>", "", t)
    return t


# ------------------------------------------------------------------ instrumentation

class Lists(ast.NodeTransformer):
    """x.append(y) and x.extend(y) of a local x become x = append(x, y): the list may get a symbolic length"""

    def __init__(self, names):
        self.names = names

    def visit_FunctionDef(self, node):
        return node
    visit_Lambda = visit_ClassDef = visit_FunctionDef

    def visit_Expr(self, node):
        c = node.value
        if (isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ("append", "extend") and isinstance(c.func.value, ast.Name)
                and c.func.value.id in self.names and len(c.args) == 1 and not c.keywords):
            new = ast.parse("x = vcrt_.%s(x, 0)" % c.func.attr).body[0]
            new.targets[0].id = new.value.args[0].id = c.func.value.id
            new.value.args[1] = c.args[0]
            for x in ast.walk(new):
                ast.copy_location(x, node)
            return new
        return node


def assigned(nodes):
    """names bound by these statements, not looking into nested scopes"""
    out = []

    def add(n):
        if n not in out:
            out.append(n)

    class Vis(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass
        visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp

        def visit_Name(self, n):
            if isinstance(n.ctx, ast.Store):
                add(n.id)

        def visit_Import(self, n):
            for a in n.names:
                add((a.asname or a.name).split(".")[0])
        visit_ImportFrom = visit_Import
    v = Vis()
    for n in nodes:
        v.visit(n)
    return out


class Instr(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.n = 0
        self.depth = 0

    def visit_FunctionDef(self, node):
        if self.depth == 0:
            names = set(assigned(node.body)) | {a.arg for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs}
            node.body = [Lists(names).visit(s) for s in node.body]
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        params = [a.arg for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs]
        for x in (node.args.vararg, node.args.kwarg):
            if x:
                params.append(x.arg)
        loops_inside = [n for s in node.body for n in ast.walk(s) if isinstance(n, (ast.For, ast.While))]
        names = assigned(node.body)
        self.depth += 1
        body = []
        for s in node.body:
            r = self.visit(s)
            body += r if isinstance(r, list) else [r]
        self.depth -= 1
        if loops_inside:
            decl = [n for n in names if n not in params]
            pre = [ast.parse("%s = vcrt_.UNDEF" % n).body[0] for n in decl]
            k = 1 if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) else 0
            body = body[:k] + pre + body[k:]
        node.body = body
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        return node

    def visit_Lambda(self, node):
        self.generic_visit(node)
        return node

    def visit_For(self, node):
        if self.depth == 0:
            return self.generic_visit(node)
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(node)):
            # a generator's loop stays as it is, over a sequence of known length
            node = self.generic_visit(node)
            node.iter = ast.copy_location(ast.Call(ast.Attribute(ast.Name("vcrt_", ast.Load()), "known", ast.Load()), [node.iter], []), node)
            return ast.fix_missing_locations(node)
        self.n += 1
        k = self.n
        names = [n for n in assigned([node])]
        body = []
        for s in node.body:
            r = self.visit(s)
            body += r if isinstance(r, list) else [r]
        body = [self.exits(s) for s in body]
        orelse = []
        for s in node.orelse:
            r = self.visit(s)
            orelse += r if isinstance(r, list) else [r]
        fn = ast.parse("def __body%d(__it):\n    pass\n    return ('c', None)" % k).body[0]
        head = []
        if names:
            head.append(ast.parse("def f():\n    nonlocal %s" % ", ".join(names)).body[0].body[0])
        target = ast.Assign(targets=[node.target], value=ast.Name("__it", ast.Load()))
        fn.body = head + [target] + body + [fn.body[-1]]
        tup = "(%s,)" % ", ".join(names) if names else "()"
        get = ast.parse("def __get%d():\n    return %s" % (k, tup)).body[0]
        if names:
            st = ast.parse("def __set%d(__v):\n    nonlocal %s\n    %s = __v" % (k, ", ".join(names), tup)).body[0]
        else:
            st = ast.parse("def __set%d(__v):\n    pass" % k).body[0]
        call = ast.parse("__r%d = vcrt_.loop('%s:%d', None, __body%d, __get%d, __set%d, %r)" % (k, self.mod, node.lineno, k, k, k, names)).body[0]
        call.value.args[1] = self.visit(node.iter)
        out = [fn, get, st, call]
        out.append(ast.parse("def f():\n    if __r%d[0] == 'r':\n        return __r%d[1]" % (k, k)).body[0].body[0])
        if self.inloop_return(node):
            pass
        if orelse:
            i = ast.parse("if __r%d[0] != 'b':\n    pass" % k).body[0]
            i.body = orelse
            out.append(i)
        for o in out:
            ast.copy_location(o, node)
            for x in ast.walk(o):
                if not hasattr(x, "lineno"):
                    ast.copy_location(x, node)
        out[4]._vc = True
        return out

    def counted(self, node):
        """`while i < n and c: ...; i += 1` as `for i in range(i, n): if not c: break; ...` (n is required not to change); None if it is not of this form"""
        t, more = node.test, []
        if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And):
            t, more = t.values[0], t.values[1:]
        if node.orelse or not (isinstance(t, ast.Compare) and len(t.ops) == 1 and type(t.ops[0]) in (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.NotEq)):
            return None

        def step(s):
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.op, (ast.Add, ast.Sub)) and isinstance(s.value, ast.Constant) and s.value.value == 1:
                return s.target.id, 1 if isinstance(s.op, ast.Add) else -1
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.BinOp) \
                    and isinstance(s.value.op, (ast.Add, ast.Sub)) and isinstance(s.value.left, ast.Name) and s.value.left.id == s.targets[0].id \
                    and isinstance(s.value.right, ast.Constant) and s.value.right.value == 1:
                return s.targets[0].id, 1 if isinstance(s.value.op, ast.Add) else -1
            return None, 0
        for first in (False, True):
            i, d = step(node.body[0 if first else -1])
            rest = node.body[1:] if first else node.body[:-1]
            if not d or not (rest or more) or i in assigned(rest):
                continue
            l, r, o = t.left, t.comparators[0], type(t.ops[0])
            if isinstance(r, ast.Name) and r.id == i:
                l, r, o = r, l, {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(o, o)
            if not (isinstance(l, ast.Name) and l.id == i) or o not in ((ast.Lt, ast.LtE) if d == 1 else (ast.Gt, ast.GtE)):
                continue
            if any(isinstance(x, ast.Name) and x.id == i for x in ast.walk(r)) or any(isinstance(x, (ast.NamedExpr, ast.Lambda)) for x in ast.walk(r)):
                continue

            class Skips(ast.NodeVisitor):
                found = False

                def visit_Continue(self, n):
                    self.found = True

                def visit_For(self, n):
                    pass
                visit_While = visit_FunctionDef = visit_For
            sk = Skips()
            for b in rest:
                sk.visit(b)
            if sk.found:
                continue
            self.n += 1
            k = self.n
            name = lambda n: "__%s%d" % (n, k)
            pre = ast.parse("%s = %s\n%s = vcrt_.whole(%s, %s)" % (name("from"), i, name("to"), ast.unparse(r), 0 if o in (ast.Lt, ast.Gt) else d)).body
            f = ast.parse("for %s in range(%s, %s, %d):\n    pass\nelse:\n    %s = vcrt_.after(%s, %s, %d)" % (i, name("from"), name("to"), d, i, name("from"), name("to"), d)).body[0]
            same = ast.parse("vcrt_.same(%s, vcrt_.whole(%s, %s))" % (name("to"), ast.unparse(r), 0 if o in (ast.Lt, ast.Gt) else d)).body[0]
            leave = [ast.If(ast.UnaryOp(ast.Not(), m), [ast.Break()], []) for m in more]
            f.body = leave + (ast.parse("%s = %s + (%d)" % (i, i, d)).body if first else []) + rest + [same]
            return pre + [f]
        return None

    def visit_While(self, node):
        """`while c: x = e ...` that only computes numbers: afterwards they are some numbers for which c is false (that it ends is not proved)"""
        def simple(s):
            t = s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, ast.AugAssign) else None
            return t and all(isinstance(x, ast.Name) for x in t) and not any(isinstance(x, (ast.Call, ast.NamedExpr, ast.Lambda)) for x in ast.walk(s.value))
        if self.depth == 0:
            return self.generic_visit(node)
        c = self.counted(node)
        if c is not None:
            out = []
            for s in c:
                for x in ast.walk(s):
                    if not hasattr(x, "lineno"):
                        ast.copy_location(x, node)
                s = self.visit(s)
                out += s if isinstance(s, list) else [s]
            return out
        if node.orelse or not all(simple(s) for s in node.body):
            self.generic_visit(node)
            test = ast.parse("vcrt_.again(%d, 0)" % node.lineno).body[0].value
            test.args[1] = node.test
            node.test = test
            for x in ast.walk(test):
                if not hasattr(x, "lineno"):
                    ast.copy_location(x, node)
            return node
        out = [ast.parse("%s = vcrt_.some_number(%r, %s)" % (n, "%s:%d:%s" % (self.mod, node.lineno, n), n)).body[0] for n in assigned(node.body)]
        leave = ast.parse("vcrt_.leave(0)").body[0]
        leave.value.args[0] = self.visit(node.test)
        out.append(leave)
        for o in out:
            for x in ast.walk(o):
                if not hasattr(x, "lineno"):
                    ast.copy_location(x, node)
        return out

    def inloop_return(self, node):
        return False

    def exits(self, s):
        """break / continue / return of a loop body (not of nested functions or inner loops, which are calls by now)"""
        class E(ast.NodeTransformer):
            def visit_FunctionDef(self, n):
                return n

            def visit_Lambda(self, n):
                return n

            def visit_Break(self, n):
                return ast.copy_location(ast.parse("def f():\n    return ('b', None)").body[0].body[0], n)

            def visit_Continue(self, n):
                return ast.copy_location(ast.parse("def f():\n    return ('c', None)").body[0].body[0], n)

            def visit_Return(self, n):
                v = n.value or ast.Constant(None)
                r = ast.parse("def f():\n    return ('r', None)").body[0].body[0]
                r.value.elts[1] = v
                return ast.copy_location(r, n)
        return E().visit(s)

    def _comp(self, node, kind):
        self.generic_visit(node)
        if len(node.generators) != 1 or node.generators[0].is_async:
            return node
        g = node.generators[0]
        call = ast.parse("vcrt_.comp(None, None, [], '%s')" % kind).body[0].value
        call.args[0] = g.iter

        def lam(e):
            if isinstance(g.target, ast.Name):
                l = ast.parse("lambda %s: None" % g.target.id).body[0].value
                l.body = e
                return l
            src = ast.unparse(g.target)
            names = [n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)]
            # flat tuple targets only
            if not all(isinstance(x, ast.Name) for x in g.target.elts):
                raise Unsupported("nested comprehension target")
            l = ast.parse("lambda __x: (lambda %s: None)(*__x)" % ", ".join(names)).body[0].value
            l.body.func.body = e
            return l
        call.args[1] = lam(node.elt)
        call.args[2].elts = [lam(c) for c in g.ifs]
        return ast.copy_location(call, node)

    def visit_ListComp(self, node):
        return self._comp(node, "list")

    def visit_GeneratorExp(self, node):
        return self._comp(node, "gen")


class RT:
    """run-time support of instrumented code"""
    UNDEF = UNDEF

    def __init__(self):
        self.handlers = []

    def loop(self, where, it, body, get, set_, names):
        return loops.run(where, it, body, get, set_, names)

    def known(self, it):
        if arrays.is_sym_iter(it):
            raise Unsupported("a generator over a sequence of symbolic length")
        return it

    def comp(self, it, f, conds, kind):
        return loops.comp(it, f, conds, kind)

    def some_number(self, name, x):
        if isinstance(x, (int, float)) or isinstance(x, core.N):
            return core.N(T.fresh("while"))
        raise Unsupported("while loop that changes a %s" % type(x).__name__)

    def whole(self, x, d):
        """the end of a counted loop, a whole number"""
        if not core.num(x).is_int:
            raise Unsupported("while loop up to %s" % str(x)[:60])
        return x + d

    def same(self, a, b):
        if core.num(a) != core.num(b):
            raise Unsupported("while loop whose end changes: %s, %s" % (a, b))

    def after(self, a, b, d):
        n = arrays.SymRange(a, b, d).length()
        return core.N(T.add(core.num(a), T.scale(n, d)))

    def again(self, line, c):
        """a loop that no rule covers is run as often as its condition holds, where that is known"""
        t = core.cond(c)
        if isinstance(t, T.Const):
            return t.v
        x = core.ctx()
        n = x.again = getattr(x, "again", 0) + 1
        if n > 12:
            raise Unsupported("while loop at line %d" % line)
        return x.decide(t)

    def leave(self, c):
        c = core.cond(c)
        core.CUR[0].havoc = True
        if c == T.FALSE:
            return
        core.ctx().assume(T.neg(c))

    def append(self, x, y):
        x.append(y)
        return x

    def extend(self, x, y):
        if type(x) is list and isinstance(y, arrays.SymList) and y.length().const() is None:
            # only where nothing else refers to the list
            if sys.getrefcount(x) > 3:
                raise Unsupported("a list of symbolic length added to a list with more than one reference")
            return arrays.concat_lists(x, y)
        x.extend(y)
        return x

    def kernel(self, wrap):
        def deco(f):
            def g(*a, **k):
                c = core.ctx()
                old, c.wrap = c.wrap, wrap
                try:
                    return f(*a, **k)
                finally:
                    c.wrap = old
            g.__name__ = f.__name__
            g.__wrapped__ = f
            return g
        return deco

    def malloc(self, n):
        return arrays.NP.ndarray([n])

    def free(self, x):
        pass


# ------------------------------------------------------------------ modules

class Stub(types.ModuleType):
    def __getattr__(self, n):
        raise Unsupported("%s.%s" % (self.__name__, n))


class Scipy(Stub):
    """scipy.integrate and scipy.optimize: only by the contracts that a proof states for them"""

    def __init__(self, name, contracts):
        types.ModuleType.__init__(self, name)
        self.__dict__["_contracts"] = contracts

    def __getattr__(self, n):
        if n in self.__dict__["_contracts"]:
            return self.__dict__["_contracts"][n]
        return Stub.__getattr__(self, n)


class Frame:
    """stand-in for autoarray's Frame"""


class Loaded:
    def __init__(self, repo="/repo", only=None):
        self.repo = repo
        self.mods = {}
        self.rt = RT()
        self.scipy = {}
        pkg = types.ModuleType(PKG)
        self.mods[PKG] = pkg
        self.pkg = pkg
        # arcticpy/__init__ exposes classes lazily through this package object
        for n in ("util", "ccd", "roe", "traps", "trap_managers_utils", "trap_managers", "main_utils", "main"):
            self.module(n)

    def source(self, n):
        for ext in (".py", ".pyx"):
            p = os.path.join(self.repo, PKG, n + ext)
            if os.path.exists(p):
                s = open(p, newline="").read()
                if ext == ".pyx":
                    return pyx_to_py(s), p
                return s.replace("\r\n", "\n"), p
        raise ImportError(n)

    def module(self, n):
        full = PKG + "." + n
        if full in self.mods:
            return self.mods[full]
        src, path = self.source(n)
        try:
            tree = ast.parse(src)
        except SyntaxError as e:
            raise Unsupported("cannot read %s: %s" % (path, e))
        tree = Instr(n).visit(tree)
        ast.fix_missing_locations(tree)
        m = types.ModuleType(full)
        self.mods[full] = m
        b = dict(vars(builtins))
        b.update(arrays.BI)
        b["__import__"] = self.imp
        m.__dict__["__builtins__"] = b
        m.__dict__["vcrt_"] = self.rt
        exec(compile(tree, "<vc:%s>" % path, "exec"), m.__dict__)
        setattr(self.pkg, n, m)
        for k, v in list(m.__dict__.items()):
            if isinstance(v, type) and v.__module__ == full:
                setattr(self.pkg, k, v)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if name == "numpy":
            return arrays.NP
        if name == "math":
            return arrays.MATH
        if name == "copy":
            m = types.ModuleType("copy")
            m.deepcopy = arrays.deepcopy
            m.copy = copy.copy
            return m
        if name == PKG or name.startswith(PKG + "."):
            parts = name.split(".")
            if len(parts) > 1:
                self.module(parts[1])
            for f in fromlist or ():
                if len(parts) == 1 and f != "*":
                    self.module(f)
            if fromlist and len(parts) > 1:
                return self.mods[name]
            return self.pkg
        if name.startswith("autoarray"):
            m = Stub(name)
            fr = types.ModuleType("frames")
            fr.Frame = Frame
            m.frames = fr
            return m
        if name.startswith("scipy"):
            m = Stub(name)
            m.integrate, m.optimize = Scipy("integrate", self.scipy), Scipy("optimize", self.scipy)
            return m
        if name == "cython":
            return Stub("cython")
        if name in ("collections", "warnings", "functools", "itertools", "operator"):
            return __import__(name, fromlist=["x"])
        raise Unsupported("import %s" % name)

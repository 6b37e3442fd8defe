"""Developer tool: mutation campaign. For each small change of the source that passes the stable tests, run the checks whose
properties are anchored in the file until one reports a violation; print the survivors.

usage: mutate.py OUT.jsonl N WORKERS SEED [file-substring ...]     (everything happens in scratch copies under /tmp)
"""
import ast, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time

S = "src/einsteinpy/"
MAP = [("symbolic/christoffel", "C01 C07"), ("symbolic/riemann", "C02 C07 C10"), ("symbolic/ricci", "C03 C07 C10"), ("symbolic/einstein", "C04 C07 C10"),
       ("symbolic/stress", "C04 C07 C10"), ("symbolic/weyl", "C05 C07 C10"), ("symbolic/schouten", "C06 C07 C10"), ("symbolic/metric", "C08 C07 C01 C10 C15"),
       ("symbolic/tensor", "C15 C12 C09 C11 C07 C10"), ("symbolic/vector", "C15 C07 C10"), ("symbolic/predefined/find", "C14"),
       ("symbolic/predefined", "C13 C14"), ("symbolic/constants", "C43"), ("symbolic/helpers", "C43 C12 C11"),
       ("metric/base", "C20 C23 C22 C21 C18 C19 C16"), ("metric/schwarz", "C16 C17 C18 C22 C20"), ("metric/kerr.py", "C16 C17 C18 C22 C20 C21"),
       ("metric/kerrnewman", "C16 C17 C18 C19 C20 C22 C21"), ("coordinates/conv", "C24 C25 C27"), ("coordinates/core", "C24 C27 C21 C22"),
       ("coordinates/diff", "C25 C26 C27 C21 C22"), ("coordinates/utils", "C24 C25 C26 C41"), ("geodesic/geodesic", "C32 C28 C33"),
       ("geodesic/utils", "C34 C28 C32"), ("integrators/utils", "C29 C30 C31"), ("integrators/fantasy", "C30 C31 C33 C32"), ("runge", "C35"),
       ("dual", "C29"), ("scalar_factor", "C40"), ("plotting/fractal", "C42 C41"), ("ijit", "C41"), ("hypersurface", "C38"), ("rays", "C39"),
       ("plotting/geodesic", "C36 C37"), ("bodies", "C27"), ("units", "C21 C43"), ("examples", "C32"), ("constant.py", "C21 C43"), ("exceptions", "C43")]
TESTS = [("symbolic/predefined", "tests/test_symbolic/test_predefined"), ("symbolic/constants", "tests/test_symbolic/test_constants.py tests/test_symbolic/test_predefined"),
         ("symbolic/tensor", "tests/test_symbolic/test_tensor.py tests/test_symbolic/test_vector.py"), ("metric/base", "tests/test_metric tests/test_coordinates/test_diff_transform.py"), ("metric/kerr.py", "tests/test_metric/test_kerr.py tests/test_metric/test_base_metric.py"),
         ("metric/kerrnew", "tests/test_metric/test_kerrnewman.py tests/test_metric/test_base_metric.py"), ("metric/schw", "tests/test_metric/test_schwarzschild.py tests/test_metric/test_base_metric.py"),
         ("coordinates/", "tests/test_coordinates"), ("geodesic/utils", "tests/test_geodesic/test_geodesic_utils.py"), ("plotting/geodesic/st", "tests/test_plotting/test_geodesic/test_static.py"),
         ("plotting/geodesic", "tests/test_plotting/test_geodesic"), ("geodesic/geodesic", "tests/test_geodesic"),
         ("integrators/utils", "tests/test_integrators/test_geod_int.py"), ("fantasy", "tests/test_integrators/test_geod_int.py"), ("runge", "tests/test_integrators/test_runge_kutta.py"),
         ("dual", "tests/test_utils/test_dual.py"), ("scalar_factor", "tests/test_utils/test_scalar_factor.py"), ("plotting/hyper", "tests/test_plotting/test_hypersurface.py"),
         ("hypersurface", "tests/test_hypersurface"), ("plotting/rays", "tests/test_plotting/test_rays"), ("rays", "tests/test_plotting/test_rays"), ("fractal", "tests/test_plotting/test_fractal.py"),
         ("bodies", "tests/test_bodies.py"), ("units", "tests/test_units.py"), ("constant.py", "tests/test_constant.py"), ("exceptions", "tests/test_utils/test_exceptions.py"), ("ijit", "tests/test_ijit")]
CAP = int(os.environ.get("CAP", "60"))
SKIP = ("__init__", "examples")


def checks_for(f):
    for k, v in MAP:
        if k in f:
            return v.split()
    return []


class V(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.lines = src.splitlines(keepends=True)
        self.off = [0]
        for l in self.lines:
            self.off.append(self.off[-1] + len(l.encode()))
        self.out = []

    def pos(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def seg(self, n):
        a, b = self.pos(n)
        return self.src.encode()[a:b].decode()

    def rep(self, n, new, kind):
        a, b = self.pos(n)
        self.out.append((a, b, new, kind, n.lineno))

    def between(self, l, r, old, new, kind):
        a, b = self.pos(l)[1], self.pos(r)[0]
        s = self.src.encode()[a:b].decode()
        if s.count(old) == 1:
            self.out.append((a, b, s.replace(old, new), kind, l.lineno))

    def visit_BinOp(self, n):
        for t, o, news in ((ast.Add, "+", "-"), (ast.Sub, "-", "+"), (ast.Mult, "*", "/"), (ast.Div, "/", "*"), (ast.Pow, "**", "*")):
            if isinstance(n.op, t):
                self.between(n.left, n.right, o, news, "binop")
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            for t, o, new in ((ast.Lt, "<", "<="), (ast.LtE, "<=", "<"), (ast.Gt, ">", ">="), (ast.GtE, ">=", ">"), (ast.Eq, "==", "!="), (ast.NotEq, "!=", "==")):
                if isinstance(n.ops[0], t):
                    self.between(n.left, n.comparators[0], o, new, "cmp")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        o, w = (" and ", " or ") if isinstance(n.op, ast.And) else (" or ", " and ")
        self.between(n.values[0], n.values[1], o.strip(), w.strip(), "bool")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.USub, ast.Not)):
            self.rep(n, "(" + self.seg(n.operand) + ")", "unary")
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if v is True or v is False:
            self.rep(n, str(not v), "const")
        elif isinstance(v, int):
            self.rep(n, str(v + 1), "const")
            if v > 1:
                self.rep(n, str(v - 1), "const")
        elif isinstance(v, float):
            self.rep(n, repr(v * 1.1 if v else 0.1), "const")
        elif isinstance(v, str) and v and set(v) <= set("lu"):
            self.rep(n, repr(v[::-1] if v != v[::-1] else ("l" if v[0] == "u" else "u") + v[1:]), "cfg")

    def visit_If(self, n):
        self.rep(n.test, "not (" + self.seg(n.test) + ")", "ifnot")
        self.rep(n.test, "True", "iftrue")
        self.rep(n.test, "False", "iffalse")
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.rep(n.test, "True", "iftrue")
        self.rep(n.test, "False", "iffalse")
        self.generic_visit(n)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        self.rep(n, "pass", "del")
        self.generic_visit(n)

    def visit_Assign(self, n):
        if isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            self.rep(n, "pass", "del")
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.rep(n, "pass", "del")
        self.generic_visit(n)

    def visit_Call(self, n):
        if len(n.args) == 2 and not n.keywords:
            a, b = self.pos(n.args[0])[0], self.pos(n.args[1])[1]
            self.out.append((a, b, self.seg(n.args[1]) + ", " + self.seg(n.args[0]), "swap", n.lineno))
        for k in n.keywords:
            if k.arg and n.args + n.keywords != [k] and k is not n.keywords[0]:
                j = n.keywords.index(k)
                a = self.pos(n.keywords[j - 1])[1]
                self.out.append((a, self.pos(k)[1], "", "kw", k.lineno))
        for nm, other in (("sin", "cos"), ("cos", "sin"), ("copy", None), ("abs", None), ("fabs", None), ("sqrt", None), ("list", None), ("deepcopy", None)):
            f = n.func
            if getattr(f, "id", getattr(f, "attr", None)) == nm:
                if other and isinstance(f, ast.Attribute):
                    self.rep(f, self.seg(f.value) + "." + other, "fn")
                elif other:
                    self.rep(f, other, "fn")
                elif len(n.args) == 1:
                    self.rep(n, "(" + self.seg(n.args[0]) + ")", "fn")
                elif nm == "copy" and not n.args and isinstance(f, ast.Attribute):
                    self.rep(n, self.seg(f.value), "fn")
        self.generic_visit(n)

    def visit_Raise(self, n):
        self.rep(n, "pass", "noraise")

    def visit_JoinedStr(self, n):
        pass

    def visit_FunctionDef(self, n):
        if n.name in ("__repr__", "__str__"):
            return
        self.generic_visit(n)


# hard mode (MODE=hard): the change shows only for some values of a parameter, or only in a second call
NUMERIC = set("t r th theta p phi x y z v_x v_y v_z v_r v_th v_p v1 v2 v3 vt alpha a Q M q lambda_ b val r_tp i points era omega delta order steps rtol atol N".split())
GUARDS_NUM = ["3 < float({p}) < 3.2", "float({p}) > 7", "float({p}) < -4", "isinstance({p}, np.float32)", "float({p}) == 1", "float({p}) > 1e12", "float({p}) == int(float({p})) != 0", "float({p}) < 0", "float({p}) == 0", "float({p}) > 1e4", "0 < abs(float({p})) < 1e-3", "type({p}) is int", "float({p}) > 2"]
GUARDS_VEC = ["float({p}[1]) > 1e6", "float({p}[2]) > 1.6", "float({p}[3]) < 0", "type({p}) is list", "type({p}) is tuple", "float({p}[2]) < 0.2", "float({p}[0]) != 0", "float({p}[-1]) < 0"]
GUARDS_SYM = ["{p}.config[0] == 'u'", "{p}.config == 'uu'", "len({p}.syms) > 4", "len({p}.syms) < 3", "{p}.name is None", "bool({p}.variables)", "bool({p}.functions)", "len({p}.config) > 2"]
GUARDS_ANY = ["{p} is None", "len({p}) > 3", "len({p}) == 1", "type({p}) is list", "type({p}) is tuple", "type({p}) is str", "type({p}) is int", "not {p}", "callable({p})", "{p} is False"]
GUARDS_SELF = ["len(self.syms) > 4", "len(self.syms) < 3", "self.config[0] == 'u'", "self.config.endswith('u')", "self.name is None", "bool(self.variables)", "float(self.a.value) == 1", "float(self.a.value) == 0",
               "float(self.Q.value) < 0", "float(self.M.value) > 1e35", "self.coords.system == 'Spherical'", "bool(self.perturbation)", "float(self.t.value) != 0", "float(self.phi.value) < 0", "float(self.x.value) < 0",
               "self.time_like is False", "len(self.metric_params) > 1", "self.order > 4", "len(self.res_list) > 1", "len(self.results) > 3", "self.parent_metric is None"]


PAIR = bool(os.environ.get("PAIR"))


class H(V):
    """conditional and stateful changes"""

    def __init__(self, src, rng):
        super().__init__(src)
        self.fn = []
        self.rng = rng

    def guard(self):
        f = self.fn[-1]
        ps = [q.arg for q in f.args.args + f.args.kwonlyargs if q.arg not in ("self", "cls")]
        gs = []
        for q in ps:
            if q in ("x_vec", "vec", "pos", "position", "momentum", "q0", "p0"):
                gs += [g.format(p=q) for g in GUARDS_VEC]
            elif q in NUMERIC:
                gs += [g.format(p=q) for g in GUARDS_NUM]
            elif q in ("metric", "tensor", "tensor1", "tensor2"):
                gs += [g.format(p=q) for g in GUARDS_SYM]
            else:
                gs += [g.format(p=q) for g in GUARDS_ANY]
        if f.args.args and f.args.args[0].arg == "self" and f.name != "__init__":
            gs += [g for g in GUARDS_SELF if re.search("self\\.%s\\b" % re.search(r"self\.(\w+)", g).group(1), self.src)]
        if len(gs) > 1 and PAIR and self.rng.random() < 0.6:
            return "(%s) and (%s)" % tuple(self.rng.sample(gs, 2))
        return self.rng.choice(gs) if gs else None

    def rep(self, n, new, kind):
        if not self.fn or not isinstance(n, ast.expr):
            return
        g = self.guard()
        if g:
            super().rep(n, "((%s) if _mcg(lambda: %s) else (%s))" % (new, g, self.seg(n)), kind + "?")

    def visit_BinOp(self, n):
        for t, o, new in ((ast.Add, "+", "-"), (ast.Sub, "-", "+"), (ast.Mult, "*", "/"), (ast.Div, "/", "*")):
            if isinstance(n.op, t):
                l, r = self.seg(n.left), self.seg(n.right)
                self.rep(n, "(%s) %s (%s)" % (l, new, r), "binop")
        self.generic_visit(n)

    def visit_Compare(self, n):
        self.generic_visit(n)

    visit_BoolOp = visit_Compare

    def visit_Call(self, n):
        if len(n.args) == 2 and not n.keywords:
            self.rep(n, "%s(%s, %s)" % (self.seg(n.func), self.seg(n.args[1]), self.seg(n.args[0])), "swap")
        for k in n.keywords[1:] if not n.args else n.keywords:
            if k.arg:
                self.rep(n, "%s(%s)" % (self.seg(n.func), ", ".join([self.seg(q) for q in n.args] + ["%s=%s" % (q.arg, self.seg(q.value)) for q in n.keywords if q is not k and q.arg])), "kw")
        self.generic_visit(n)

    def visit_Return(self, n):
        f = self.fn[-1] if self.fn else None
        if f and n.value and len(self.fn) == 1:
            ps = [q.arg for q in f.args.args + f.args.kwonlyargs]
            own = bool(ps) and ps[0] == "self"
            e = self.seg(n.value)
            args = [q for q in ps if q not in ("self", "cls")]
            key = lambda qs, own: "(%s)" % "".join("repr(%s), " % q for q in (["id(self)"] if own else []) + qs)
            opts = [(args, own, "alias")]
            for q in args:
                opts.append(([z for z in args if z != q], own, "stale-" + q))
            if own and args:
                opts.append((args, False, "stale-self"))
            elif own:
                opts = [([], True, "stale-again")]
            for qs, o, k in opts:
                st = "self.__dict__.setdefault('_mc_%s', {})" % f.name if own and o else "globals().setdefault('_mc_%s', {})" % f.name
                V.rep(self, n.value, "_mcc(%s, %s, lambda: %s)" % (st, key(qs, own and o), e), k)
        self.generic_visit(n)

    def visit_FunctionDef(self, n):
        if n.name in ("__repr__", "__str__"):
            return
        self.fn.append(n)
        for b in n.body:
            self.visit(b)
        self.fn.pop()

    visit_Lambda = lambda self, n: None


# name mode (MODE=name): one variable, attribute, element or statement in the place of another
class N(H):
    def __init__(self, src, rng):
        super().__init__(src, rng)
        self.locals = []
        self.attrs = sorted(set(re.findall(r"self\.(\w+)\b(?!\()", src)))

    def rep(self, n, new, kind):
        V.rep(self, n, new, kind)

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load) and self.locals and n.id in self.locals[-1]:
            c = [q for q in self.locals[-1] if q != n.id]
            for q in self.rng.sample(c, min(3, len(c))):
                self.rep(n, q, "name")

    def visit_Attribute(self, n):
        if isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == "self" and n.attr in self.attrs:
            c = [q for q in self.attrs if q != n.attr]
            for q in self.rng.sample(c, min(2, len(c))):
                self.rep(n, "self." + q, "attr")
        self.generic_visit(n)

    def elements(self, n):
        for i in range(len(n.elts) - 1):
            a, b = n.elts[i], n.elts[i + 1]
            if self.seg(a) != self.seg(b):
                self.out.append((self.pos(a)[0], self.pos(b)[1], self.seg(b) + ", " + self.seg(a), "elements", n.lineno))
        self.generic_visit(n)

    visit_Tuple = visit_List = elements
    visit_BinOp = visit_Compare = visit_BoolOp = lambda self, n: self.generic_visit(n)

    def visit_Return(self, n):
        self.generic_visit(n)

    def visit_Call(self, n):
        f = self.seg(n.func)
        if f in ("range", "np.arange", "np.linspace", "zip", "enumerate"):
            self.rep(n, "list(%s)[1:]" % self.seg(n), "range") if f != "np.linspace" else None
            self.rep(n, "list(%s)[:-1]" % self.seg(n), "range") if f != "np.linspace" else None
            self.rep(n, "list(%s)[::-1]" % self.seg(n), "range") if f != "np.linspace" else None
        for i in range(len(n.args) - 1):
            a, b = n.args[i], n.args[i + 1]
            if self.seg(a) != self.seg(b):
                self.out.append((self.pos(a)[0], self.pos(b)[1], self.seg(b) + ", " + self.seg(a), "args", n.lineno))
        self.generic_visit(n)

    def block(self, body):
        for a, b in zip(body, body[1:]):
            if not any(isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)) or (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)) for x in (a, b)):
                i, j, k, l = *self.pos(a), *self.pos(b)
                src = self.src.encode()
                self.out.append((i, l, (src[k:l] + src[j:k] + src[i:j]).decode(), "order", a.lineno))

    def visit_For(self, n):
        self.block(n.body)
        self.generic_visit(n)

    visit_If = visit_For

    def visit_FunctionDef(self, n):
        if n.name in ("__repr__", "__str__"):
            return
        a = n.args
        names = {q.arg for q in a.args + a.kwonlyargs} - {"self", "cls"}
        names |= {q.id for q in ast.walk(n) if isinstance(q, ast.Name) and isinstance(q.ctx, ast.Store)}
        self.locals.append(sorted(names))
        self.block(n.body)
        for b in n.body:
            self.visit(b)
        self.locals.pop()


PRELUDE = '''
def _mcg(f):
    try:
        r = bool(f())
    except Exception:
        return False
    if r:
        open(%r, "w").close()
    return r
def _mcc(d, k, f):
    if k in d:
        open(%r, "w").close()
        return d[k]
    d[k] = f()
    return d[k]
'''
HARD = os.environ.get("MODE") == "hard"


def mutants(path):
    raw = open(path, newline="").read()
    v = N(raw, random.Random(path)) if os.environ.get("MODE") == "name" else H(raw, random.Random(path)) if HARD else V(raw)
    v.visit(ast.parse(raw))
    return raw, sorted(set(v.out))


def sh(tree, verif, cmd, timeout):
    m = "mount --bind %s/repo /repo && " % tree + ("mount --bind %s/verif /verif && " % tree if verif else "")
    try:
        r = subprocess.run(["unshare", "-Urm", "bash", "-c", m + cmd], capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 99, "timeout"


def main():
    out, N, W, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
    pats = sys.argv[5:]
    files = subprocess.run(["git", "-C", "/repo", "ls-files", "src/einsteinpy"], capture_output=True, text=True).stdout.split()
    files = [f for f in files if f.endswith(".py") and "/tests/" not in f and not any(s in f for s in SKIP) and (not pats or any(p in f for p in pats))]
    rng = random.Random(seed)
    pools = {}
    for f in files:
        raw, ms = mutants("/repo/" + f)
        rng.shuffle(ms)
        ms = ms[:CAP]
        pools[f] = (raw, ms)
    print({f: len(m) for f, (r, m) in pools.items()}, sum(len(m) for r, m in pools.values()))
    todo = [(f, m) for f, (r, ms) in pools.items() for m in ms]
    rng.shuffle(todo)
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d["file"], d["a"], d["b"], d["new"]))
    todo = [(f, m) for f, m in todo if (f, m[0], m[1], m[2]) not in done][:N]
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    lock = threading.Lock()
    it = iter(todo)

    def worker(w):
        d = tempfile.mkdtemp(prefix="mut%d_" % w, dir="/tmp")
        subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
        subprocess.run("mkdir %s/verif && cd /verif && tar cf - --exclude=./seeded --exclude=./.git . | tar xf - -C %s/verif" % (d, d), shell=True, check=True)
        try:
            while True:
                with lock:
                    x = next(it, None)
                if x is None or os.path.exists("/tmp/mut.stop"):
                    return
                f, (a, b, new, kind, line) = x
                raw = pools[f][0].encode()
                mut = raw[:a] + new.encode() + raw[b:]
                hit = d + "/hit"
                if HARD:
                    mut += (PRELUDE % (hit, hit)).encode()
                    if os.path.exists(hit):
                        os.unlink(hit)
                try:
                    ast.parse(mut)
                except SyntaxError:
                    continue
                p = os.path.join(d, "repo", f)
                open(p, "wb").write(mut)
                t0 = time.time()
                py = ("cd /repo && export HOME=/root MPLBACKEND=Agg PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 && "
                      "timeout 250 /opt/venv/bin/python -m pytest -x -q -p no:cacheprovider %s --timeout=100 2>&1 | tail -5")
                tf = next((v for k, v in TESTS if k in f), "tests/test_symbolic/test_%s.py" % os.path.basename(f)[:-3].split("_")[0])
                tf = tf if "stress" not in f else "tests/test_symbolic/test_stress_energy_momentum.py"
                rec = dict(file=f, line=line, a=a, b=b, kind=kind, old=raw[a:b].decode(), new=new)
                bad = lambda o: "passed" not in o or "failed" in o or "error" in o.lower()
                rc, o = sh(d, 0, py % (tf + ""), 260)
                if bad(o):
                    rec["res"] = "tests"
                else:
                    rec["res"] = "SURVIVED"
                    if HARD and os.path.exists(hit):
                        os.unlink(hit)
                    for c in checks_for(f):
                        rc, o = sh(d, 1, "cd /verif && VERIF_FAILFAST=1 VERIF_JOBS=3 VERIF_SEED=1 VERIF_TIER=quick ./check %s --tier quick" % c, 900)
                        if rc == 1 and "VIOLATION property=%s " % c in o:
                            rec["res"] = c
                            break
                        if rc != 0:
                            rec["res"] = "BROKEN " + c + " rc=%d" % rc
                            rec["tail"] = o[-600:]
                            break
                    if not rec["res"].startswith("C"):
                        if HARD and not os.path.exists(hit):
                            rec["res"] = "UNREACHED"
                        elif bad(sh(d, 0, (py % "-n 3").replace("timeout 250", "timeout 800"), 900)[1]):
                            rec["res"] = "tests2"
                rec["t"] = round(time.time() - t0)
                open(p, "wb").write(raw)
                with lock:
                    open(out, "a").write(json.dumps(rec) + "\n")
        finally:
            shutil.rmtree(d, ignore_errors=True)

    ts = [threading.Thread(target=worker, args=(w,)) for w in range(W)]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()

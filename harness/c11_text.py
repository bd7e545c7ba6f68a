"""Runs programs exported by the text back ends of SeQuant with exact arithmetic
over F_p[i] and compares what they store with the expected values.
Input: a file with one JSON object per line; output: one line per program."""
import ast, json, re, sys
import numpy as np
P = (1 << 61) - 1
class Z:
    __slots__ = ("re", "im")
    def __init__(s, re=0, im=0): s.re = re % P; s.im = im % P
    @staticmethod
    def of(x):
        if isinstance(x, Z): return x
        if isinstance(x, bool): return None
        if isinstance(x, int): return Z(x)
        if isinstance(x, float): return Z(int(x)) if x == int(x) else None
        if isinstance(x, np.ndarray) and x.shape == (): return Z.of(x.item())
        return None
    def _b(f):
        def g(s, o):
            if isinstance(o, np.ndarray) and o.shape != (): return NotImplemented
            o = Z.of(o)
            return NotImplemented if o is None else f(s, o)
        return g
    __add__ = __radd__ = _b(lambda a, b: Z(a.re + b.re, a.im + b.im))
    __sub__ = _b(lambda a, b: Z(a.re - b.re, a.im - b.im))
    __rsub__ = _b(lambda a, b: Z(b.re - a.re, b.im - a.im))
    __mul__ = __rmul__ = _b(lambda a, b: Z(a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re))
    __truediv__ = _b(lambda a, b: a * b.inv())
    __rtruediv__ = _b(lambda a, b: b * a.inv())
    def __neg__(s): return Z(-s.re, -s.im)
    def __pos__(s): return s
    def inv(s):
        n = (s.re * s.re + s.im * s.im) % P
        if not n: raise ZeroDivisionError()
        n = pow(n, P - 2, P); return Z(s.re * n, -s.im * n)
    def conjugate(s): return Z(s.re, -s.im)
    conj = conjugate
    def __pow__(s, e):
        e = Z.of(e)
        if e is None or e.im: raise ValueError("exponent")
        e = e.re if e.re <= P // 2 else e.re - P
        b, e, r = (s, e, Z(1)) if e >= 0 else (s.inv(), -e, Z(1))
        while e:
            if e & 1: r = r * b
            b = b * b; e >>= 1
        return r
    def __index__(s):
        if s.im or s.re > 1 << 20: raise TypeError("not an extent")
        return s.re
    def __eq__(s, o):
        o = Z.of(o); return o is not None and s.re == o.re and s.im == o.im
    def __hash__(s): return hash((s.re, s.im))
    def __repr__(s): return "%d+%di" % (s.re, s.im)
class Bad(Exception): pass
def arr(shape, flat):
    a = np.empty(tuple(shape), dtype=object); f = a.reshape(-1)
    for k, (x, y) in enumerate(flat): f[k] = Z(x, y)
    return f.reshape(tuple(shape)) if shape else f[0]
def einsum(spec, *ops):   # spec over arbitrary hashable labels: ([labels...], out)
    ins, out = spec; dims = {}
    for l, o in zip(ins, ops):
        sh = np.shape(o)
        if len(sh) != len(l): raise Bad("rank mismatch")
        for x, n in zip(l, sh):
            if dims.setdefault(x, n) != n: raise Bad("extents of an index disagree")
    for x in out:
        if x not in dims: raise Bad("result index %r is in no operand" % (x,))
    cur, cl = None, []
    for q, (l, o) in enumerate(zip(ins, ops)):
        later = set(out).union(*[set(z) for z in ins[q + 1:]])
        if cur is None: cur, cl = Z(1), []
        alll = cl + [x for x in dict.fromkeys(l) if x not in cl]
        keep = [x for x in alll if x in later]
        def view(a, ls):
            a = np.asarray(a, dtype=object) if not isinstance(a, np.ndarray) else a
            # diagonal of repeated labels, then expand to alll order
            ls = list(ls)
            k = 0
            while k < len(ls):
                j = ls.index(ls[k])
                if j != k: a = np.moveaxis(np.diagonal(a, axis1=j, axis2=k), -1, j); del ls[k]
                else: k += 1
            a = np.transpose(a, [ls.index(x) for x in alll if x in ls]) if ls else a
            return a.reshape([dims[x] if x in ls else 1 for x in alll])
        t = view(cur, cl) * view(o, l)
        ax = tuple(k for k, x in enumerate(alll) if x not in keep)
        for k in reversed(ax): t = t.sum(axis=k)
        cur, cl = t, keep
    if not isinstance(cur, np.ndarray): return cur
    r = np.transpose(cur, [cl.index(x) for x in out]) if out else cur
    return r if out else (r.item() if isinstance(r, np.ndarray) else r)
# ---- Python (numpy) back end: the generated module is executed with exact literals
class Lit(ast.NodeTransformer):
    def visit_Constant(s, n):
        v = n.value
        if isinstance(v, bool) or not isinstance(v, (int, float, complex)): return n
        a = (v.real, v.imag) if isinstance(v, complex) else (v, 0)
        if any(float(x) != int(x) for x in a): raise Bad("inexact literal %r" % (v,))
        return ast.copy_location(ast.Call(ast.Name("Z_", ast.Load()), [ast.Constant(int(a[0])), ast.Constant(int(a[1]))], []), n)
class FakeNp:
    def __init__(s, disk): s.disk = disk; s.loaded = []
    def zeros(s, shape, order="C"):
        shape = tuple(int(x.__index__()) for x in (shape if isinstance(shape, (tuple, list)) else (shape,))); return arr(shape, [(0, 0)] * int(np.prod(shape, dtype=int)))
    def load(s, f):
        if f not in s.disk: raise Bad("load of the missing file " + f)
        a = s.disk[f]; return a.copy() if isinstance(a, np.ndarray) else a
    def save(s, f, a): s.disk[f] = a.copy() if isinstance(a, np.ndarray) else a; s.loaded.append(f)
    def conj(s, a): return a.conjugate() if isinstance(a, Z) else np.conj(a)
    def einsum(s, spec, *ops, optimize=False):
        if not re.fullmatch(r"[a-zA-Z]*(,[a-zA-Z]*)*->[a-zA-Z]*", spec): raise Bad("not an einsum specification: " + spec)
        l, o = spec.split("->"); l = l.split(",")
        if len(l) != len(ops): raise Bad("operand count of " + spec)
        if len(set(o)) != len(o): raise Bad("repeated result index in " + spec)
        return einsum(([list(x) for x in l], list(o)), *ops)
class FakeOs:
    def remove(s, f): pass
def run_numpy(c, disk):
    code = "\n".join(x for x in c["code"].split("\n") if not x.startswith("import "))
    tree = ast.fix_missing_locations(Lit().visit(ast.parse(code)))
    npx = FakeNp(disk); env = {"np": npx, "os": FakeOs(), "Z_": Z}
    exec(compile(tree, "generated", "exec"), env)
    for s in c["sections"]: env[s]()
    stored = {f[:-4] for f in npx.loaded}   # results stay in memory
    left = [k for k in env if k not in ("np", "os", "Z_", "__builtins__") and k not in c["sections"] and k not in stored]
    return left
# ---- scalar and product syntax shared by the Julia and ITF back ends
def julia_scalar(s, env):
    s = s.replace("//", "/").replace("^", "**")
    s = re.sub(r"(?<![\w.])(\d+)im\b", r"Z_(0,\1)", s)       # a literal coefficient binds tighter than /
    s = re.sub(r"\bim\b", "Z_(0,1)", s)
    t = ast.fix_missing_locations(Lit2().visit(ast.parse(s.strip(), mode="eval")))
    class E(dict):
        def __missing__(_, k):
            if k in ("Z_", "conj"): raise KeyError(k)
            if k not in env: raise Bad("unknown name " + k)
            return env[k]
    return eval(compile(t, "scalar", "eval"), {"Z_": Z, "conj": lambda x: x.conjugate(), "__builtins__": {}}, E())
class Lit2(Lit):
    def visit_Call(s, n): return n if isinstance(n.func, ast.Name) and n.func.id == "Z_" else s.generic_visit(n)
def split_top(s, sep):
    out, d, cur, k = [], 0, "", 0
    while k < len(s):
        if s[k] in "([{": d += 1
        if s[k] in ")]}": d -= 1
        if d == 0 and s.startswith(sep, k): out.append(cur); cur = ""; k += len(sep); continue
        cur += s[k]; k += 1
    return out + [cur]
def run_julia(c, disk):
    env, returned = {}, []
    for line in c["code"].split("\n"):
        line = line.strip()
        if not line or line.startswith("#"): continue
        if m := re.fullmatch(r"(\S+) = zeros\(Float64((?:, \w+)*)\)", line):
            sh = [int(x) for x in m[2].split(",")[1:]]; env[m[1]] = arr(sh, [(0, 0)] * int(np.prod(sh, dtype=int)))
        elif m := re.fullmatch(r'(\S+) = deserialize\("(.+)\.jlbin"\)', line):
            if m[2] not in disk: raise Bad("load of the missing file " + m[2])
            a = disk[m[2]]; env[m[1]] = a.copy() if isinstance(a, np.ndarray) else a
        elif m := re.fullmatch(r"(\S+) = nothing", line):
            if m[1] not in env: raise Bad("released twice: " + m[1])
            del env[m[1]]
        elif m := re.fullmatch(r"(\S+) = (0|0\.0)", line): env[m[1]] = Z(0)
        elif m := re.fullmatch(r"return (\S+)", line): disk[m[1]] = env.pop(m[1]); returned.append(m[1])
        elif m := re.fullmatch(r"@tensor (.+?) \+= (.+)", line):
            def ref(s):
                q = re.fullmatch(r"(\S+)\[ ?(.*?) ?\]", s.strip())
                return (q[1], [x.strip() for x in q[2].split(",")] if q[2].strip() else []) if q else None
            lhs = ref(m[1]) or (m[1].strip(), [])
            scal, ins, ops = Z(1), [], []
            for f in split_top(m[2], " * "):
                q = ref(f)
                if q:
                    if q[0] not in env: raise Bad(q[0] + " is read but not in memory")
                    ins.append(q[1]); ops.append(env[q[0]])
                else: scal = scal * julia_scalar(f, env)
            v = einsum((ins, lhs[1]), *ops) * scal if ops else scal
            if lhs[0] not in env: raise Bad(lhs[0] + " is updated but not in memory")
            if not lhs[1]: env[lhs[0]] = env[lhs[0]] + (v.item() if isinstance(v, np.ndarray) else v)
            else: env[lhs[0]] = env[lhs[0]] + v
        else: raise Bad("not understood: " + line)
    return sorted(env)
def run_itf(c, disk):
    mem, decl, spaces, stack = {}, {}, {}, []
    def ref(s):
        q = re.fullmatch(r"([^\[\s]+)\[([^\]]*)\]", s)
        if not q: return None
        idx = re.findall(r"\{[^}]*\}|.", q[2]); return q[1], idx
    def shape(ix):
        for x in ix:
            if x not in spaces: raise Bad("undeclared index " + x)
        return [c["extent"][spaces[x]] for x in ix]
    for line in c["code"].split("\n"):
        line = line.strip()
        if not line or line.startswith("----") or line.startswith("//"): continue
        if line.startswith("index-space: "):
            n, name, tag = line[13:].split(", ")
            for x in (n[1:-1],) if n.startswith("{") else (n,):
                k = "{" + x + "}" if n.startswith("{") else x
                if k in spaces: raise Bad("index %s is declared twice" % k)
                spaces[k] = name
        elif line.startswith("tensor: "):
            t, imp = line[8:].split(", ", 1); r = ref(t)
            if r[0] in decl: raise Bad("tensor %s is declared twice" % r[0])
            decl[r[0]] = (shape(r[1]), imp)
        elif m := re.fullmatch(r"(alloc|load|drop|store) (.+)", line):
            r = ref(m[2])
            if r[0] not in decl: raise Bad("undeclared tensor " + r[0])
            if shape(r[1]) != decl[r[0]][0]: raise Bad("declared with another shape: " + r[0])
            if m[1] in ("alloc", "load"):
                if r[0] in mem: raise Bad(r[0] + " is in memory already")
                sh = shape(r[1]); stack.append(r[0])
                if m[1] == "alloc": mem[r[0]] = arr(sh, [(0, 0)] * int(np.prod(sh, dtype=int)))
                else:
                    f = decl[r[0]][1]
                    if f.startswith("!Create"): f = r[0]
                    if f not in disk: raise Bad("load of the unknown tensor " + f)
                    a = disk[f]; mem[r[0]] = a.copy() if isinstance(a, np.ndarray) else a
            else:
                if not stack or stack.pop() != r[0]: raise Bad("%s of %s out of order" % (m[1], r[0]))
                v = mem.pop(r[0])
                if m[1] == "drop" and decl[r[0]][1].startswith("!Create"): disk.setdefault(r[0], v)
                if m[1] == "store": disk[r[0] if decl[r[0]][1].startswith('!Create') else decl[r[0]][1]] = v
        elif m := re.fullmatch(r"\.(\S+) (\+=|:=) (.+)", line):
            lhs = ref(m[1]); toks = split_top(m[3], " "); scal, ins, ops, k = Z(1), [], [], 0
            if lhs[0] not in mem: raise Bad(lhs[0] + " is updated but not in memory")
            for tk in toks:
                if tk in ("", "*"): continue
                q = ref(tk)
                if q and q[0] == "One": continue
                if q:
                    if q[0] not in mem: raise Bad(q[0] + " is read but not in memory")
                    shape(q[1]); ins.append(q[1]); ops.append(mem[q[0]])
                else: scal = scal * julia_scalar(tk.replace("**", "^"), {})
            if len(ops) > 2: raise Bad("more than two factors")
            v = einsum((ins, lhs[1]), *ops) * scal if ops else scal
            if m[2] == ":=": mem[lhs[0]] = v
            else: mem[lhs[0]] = mem[lhs[0]] + v
        else: raise Bad("not understood: " + line)
    return sorted(mem)
RUN = {"numpy": run_numpy, "julia": run_julia, "itf": run_itf}
EXT = {"numpy": ".npy", "julia": "", "itf": ""}
def main():
    for line in open(sys.argv[1], encoding="utf-8"):
        c = json.loads(line)
        try:
            x = EXT[c["format"]]
            disk = {f + x: arr(sh, fl) for f, sh, fl in c["inputs"]}
            left = RUN[c["format"]](c, disk)
            msg = "ok"
            if left: msg = "still in memory at the end: " + " ".join(left)
            for f, sh, fl in c["expected"]:
                if f + x not in disk: msg = "result %s was not stored" % f; break
                w, g = arr(sh, fl), disk[f + x]
                if np.shape(w) != np.shape(g): msg = "shape of %s" % f; break
                if not np.all(np.asarray(w == g)): msg = "value of %s" % f; break
        except Bad as e: msg = str(e)
        except Exception as e: msg = type(e).__name__ + ": " + str(e)
        print(msg.replace("\n", " "))
main()

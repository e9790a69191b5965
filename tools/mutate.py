#!/usr/bin/env python3
"""mutate.py PROP FILE FUNC[,FUNC...] [-n N] [-s SEED] [-j JOBS]: run a property's quick check on random
one-token mutants of the named functions and print the ones it does not notice."""
import argparse, ast, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

ap = argparse.ArgumentParser()
ap.add_argument("prop"); ap.add_argument("file"); ap.add_argument("funcs")
ap.add_argument("-n", type=int, default=40); ap.add_argument("-s", type=int, default=0); ap.add_argument("-j", type=int, default=6)
ap.add_argument("--seed", default="1")
ap.add_argument("--timeout", type=int, default=240)
a = ap.parse_args()
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(os.path.join("/repo", a.file)).read()
lines = src.splitlines(keepends=True)
starts = [0]
for l in lines:
    starts.append(starts[-1] + len(l.encode()))
bsrc = src.encode()
pos = lambda ln, col: starts[ln - 1] + col
span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
text = lambda n: bsrc[slice(*span(n))].decode()
CMP = {ast.Lt: ("<", ["<=", ">"]), ast.LtE: ("<=", ["<"]), ast.Gt: (">", [">=", "<"]), ast.GtE: (">=", [">"]), ast.Eq: ("==", ["!="]), ast.NotEq: ("!=", ["=="])}
BIN = {ast.Add: ("+", ["-"]), ast.Sub: ("-", ["+"]), ast.Mult: ("*", ["/"]), ast.Div: ("/", ["*"]), ast.FloorDiv: ("//", ["%"]), ast.Mod: ("%", ["//"]), ast.Pow: ("**", ["*"]), ast.BitAnd: ("&", ["|"]), ast.BitOr: ("|", ["&"])}
SWAP = {"tile_a": "tile_b", "tile_b": "tile_a", "uu": "vv", "vv": "uu", "dimension": "elements", "elements": "dimension", "freq_use": "nf_vis"}
muts = []  # (start, end, replacement, description)


def add(s, e, r, d):
    muts.append((s, e, r, d))


def op(left, right, tok, new):
    s, e = span(left)[1], span(right)[0]
    seg = bsrc[s:e].decode()
    i = seg.find(tok)
    if i >= 0:
        add(s + i, s + i + len(tok.encode()), new, f"{tok} -> {new}")


def visit(fn):
    doc = ast.get_docstring(fn)
    body = fn.body[1:] if doc else fn.body
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and text(n.value.func).startswith(("logger", "warnings", "print")):
                continue
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
                t, news = CMP[type(n.ops[0])]
                for w in news: op(n.left, n.comparators[0], t, w)
            elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
                t, news = BIN[type(n.op)]
                for w in news: op(n.left, n.right, t, w)
            elif isinstance(n, ast.BoolOp):
                t, w = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
                op(n.values[0], n.values[1], t, w)
            elif isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes, type(None))):
                v = n.value
                if isinstance(v, bool): add(*span(n), str(not v), f"{v} -> {not v}")
                elif isinstance(v, int):
                    for w in ([1] if v == 0 else [v - 1, v + 1]): add(*span(n), str(w), f"{v} -> {w}")
                elif isinstance(v, float): add(*span(n), repr(v * 1.5 or 0.5), f"{v} -> {v * 1.5}")
            elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value in SWAP and len(text(n)) == len(n.value) + 2:
                add(*span(n), f'"{SWAP[n.value]}"', f"{n.value} -> {SWAP[n.value]}")
            elif isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
                if n in st.__dict__.get("body", []) or True:
                    if isinstance(n, ast.AugAssign) or (isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Subscript)):
                        add(*span(n), "pass", "statement removed: " + text(n)[:50])
            elif isinstance(n, ast.If):
                add(*span(n.test), f"not ({text(n.test)})", "negated if")
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and not isinstance(n.operand, ast.Constant):
                add(*span(n), f"({text(n.operand)})", "minus removed")
            elif isinstance(n, ast.Call):
                f = text(n.func)
                if f in ("np.conj", "np.abs", "abs", "np.sqrt", "np.ceil", "np.floor", "np.unique") and len(n.args) == 1:
                    add(*span(n), f"({text(n.args[0])})", f"{f} removed")
                sw = {"np.min": "np.max", "np.max": "np.min", "min": "max", "max": "min", "np.minimum": "np.maximum", "np.maximum": "np.minimum", "np.mean": "np.median", "np.floor": "np.round", "np.ceil": "np.floor", "np.sin": "np.cos", "np.cos": "np.sin", "np.sum": "np.mean"}
                if f in sw: add(*span(n.func), sw[f], f"{f} -> {sw[f]}")
                if f.endswith(".copy") and not n.args: add(*span(n), f[:-5], "copy removed")
                if f == "deepcopy": add(*span(n), text(n.args[0]), "deepcopy removed")


tree = ast.parse(src)
fs = a.funcs.split(",")
found = set()
for n in ast.walk(tree):
    if isinstance(n, ast.FunctionDef) and (n.name in fs or fs == ["*"]):
        found.add(n.name); visit(n)
assert fs == ["*"] or found == set(fs), (found, fs)
muts = sorted(set(muts))
random.Random(a.s).shuffle(muts)
print(f"{len(muts)} mutants, trying {min(a.n, len(muts))}", flush=True)


def run(m):
    s, e, r, d = m
    new = bsrc[:s] + r.encode() + bsrc[e:]
    ln = bsrc[:s].count(b"\n") + 1
    try:
        compile(new, a.file, "exec")
    except SyntaxError:
        return None
    w = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    try:
        rp = os.path.join(w, "repo"); os.mkdir(rp)
        shutil.copytree("/repo/PyFHD", rp + "/PyFHD", ignore=shutil.ignore_patterns("__pycache__", "*.h5"))
        open(os.path.join(rp, a.file), "wb").write(new)
        for f in ("pyproject.toml", "setup.py"):
            if os.path.exists("/repo/" + f): shutil.copy("/repo/" + f, rp)
        try:
            p = subprocess.run(["bash", "check.sh", a.prop, "quick"], cwd=V, capture_output=True, text=True, timeout=a.timeout,
                               env=dict(os.environ, VERIF_REPO=rp, VERIF_SEED=a.seed, VERIF_EVIDENCE_DIR=w))
            rc, out = p.returncode, p.stdout
        except subprocess.TimeoutExpired:
            return ("TIMEOUT", ln, d)
        if rc == 1: return ("caught", ln, d)
        if rc == 0: return ("SURVIVED", ln, d)
        return ("ERROR " + out[-300:], ln, d)
    finally:
        shutil.rmtree(w)


c = {}
with ThreadPoolExecutor(a.j) as ex:
    for m, res in zip(muts[: a.n], ex.map(run, muts[: a.n])):
        if res is None: continue
        c[res[0][:8]] = c.get(res[0][:8], 0) + 1
        if res[0] != "caught":
            new = (bsrc[: m[0]] + b"\xc2\xab" + m[2].encode() + b"\xc2\xbb" + bsrc[m[1]:]).decode().splitlines()[res[1] - 1]
            print(f"{res[0]} {os.path.basename(a.file)}:{res[1]} {res[2]} | {new.strip()}", flush=True)
print(a.prop, c)

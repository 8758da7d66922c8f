"""Mutation testing of the checks: draw random small changes in the files the properties are
anchored in, run the quick checks of those properties, report the survivors.

    python3 tools/mutate.py --seed 1 --n 50 [--workers 2] [--out LOG] [--files substr ...] [PID ...]

Works on scratch copies under --scratch (default /tmp/mutants); /repo and /verif are only read.
"""
import argparse, ast, collections, json, os, random, shutil, subprocess, threading, time, warnings

ap = argparse.ArgumentParser()
ap.add_argument("pids", nargs="*")
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--n", type=int, default=20)
ap.add_argument("--workers", type=int, default=1)
ap.add_argument("--repo", default="/repo")
ap.add_argument("--verif", default=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
ap.add_argument("--scratch", default="/tmp/mutants")
ap.add_argument("--out")
ap.add_argument("--files", nargs="*", default=[])
ap.add_argument("--weight", action="store_true", help="weight files by their number of candidates")
o = ap.parse_args()
warnings.simplefilter("ignore")
rng = random.Random(o.seed)
files = collections.defaultdict(list)
for l in open(o.verif + "/properties.jsonl"):
    p = json.loads(l)
    if o.pids and p["id"] not in o.pids:
        continue
    for f in p["anchors"]["files"]:
        if f.endswith(".py") and (not o.files or any(x in f for x in o.files)):
            files[f].append(p["id"])
SKIP = ("verbose", "print", "warn", "raise", "Pwarn", "__author", "logger", ".debug")
SWAP = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}
CMP = {ast.Lt: "<=", ast.Gt: ">=", ast.LtE: "<", ast.GtE: ">", ast.Eq: "!=", ast.In: "not in",
       ast.NotIn: "in"}


def cands(path):
    src = open(os.path.join(o.repo, path)).read()
    lines = src.split("\n")
    bl = [x.encode() for x in lines]
    tree = ast.parse(src)
    infn, out = set(), []
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef) and not n.name.startswith("plot") \
                and n.name not in ("__repr__", "__str__"):
            for k in ast.walk(n):
                infn.add(id(k))

    def seg(n):
        if n.lineno != n.end_lineno:
            return None
        return bl[n.lineno - 1][n.col_offset:n.end_col_offset].decode()
    for n in ast.walk(tree):
        if id(n) not in infn or not hasattr(n, "lineno") or n.lineno != n.end_lineno:
            continue
        L = lines[n.lineno - 1]
        if any(s in L for s in SKIP):
            continue
        if n.lineno >= 2 and any(s in lines[n.lineno - 2] for s in ("raise", "print(", "Pwarn(")):
            continue
        s, new = seg(n), None
        if isinstance(n, ast.BinOp):
            if '"' in s or "'" in s or type(n.op) not in SWAP:
                continue
            new = "%s %s %s" % (seg(n.left), SWAP[type(n.op)], seg(n.right))
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            new = "%s %s %s" % (seg(n.left), CMP[type(n.ops[0])], seg(n.comparators[0]))
        elif isinstance(n, ast.BoolOp):
            new = "(" + (" or " if isinstance(n.op, ast.And) else " and ").join(
                seg(v) for v in n.values) + ")"
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            new = seg(n.operand)
        elif isinstance(n, ast.Attribute) and n.attr in ("star_1", "star_2"):
            new = seg(n.value) + "." + ("star_2" if n.attr == "star_1" else "star_1")
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            new = repr(not n.value)
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            v = n.value
            new = repr(v + 1) if isinstance(v, int) else repr(v * 1.3 if v else 0.1)
        elif isinstance(n, (ast.AugAssign,)) or (isinstance(n, ast.Expr)
                                                 and isinstance(n.value, ast.Call)):
            new = "pass"
        if new and new != s:
            out.append((n.lineno, n.col_offset, n.end_col_offset, new, type(n).__name__))
    return out


allc = [(f, c) for f, c in ((f, cands(f)) for f in files) if c]
weights = [len(c) if o.weight else 1 for _, c in allc]
jobs, seen = [], set()
while len(jobs) < o.n and len(seen) < sum(map(lambda x: len(x[1]), allc)):
    f, c = rng.choices(allc, weights)[0]
    m = rng.choice(c)
    if (f, m) in seen:
        continue
    seen.add((f, m))
    lines = open(os.path.join(o.repo, f)).read().split("\n")
    b = lines[m[0] - 1].encode()
    old = lines[m[0] - 1]
    lines[m[0] - 1] = (b[:m[1]] + m[3].encode() + b[m[2]:]).decode()
    try:
        ast.parse("\n".join(lines))
    except SyntaxError:
        continue
    jobs.append((f, m, old, "\n".join(lines)))
lock, tally = threading.Lock(), collections.Counter()
log = open(o.out, "a") if o.out else None


def work(k):
    d = os.path.join(o.scratch, "w%d" % k)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    R, V = d + "/repo", d + "/verif"
    subprocess.run(["cp", "-a", o.repo, R], check=True)
    subprocess.run(["cp", "-a", o.verif, V], check=True)
    while True:
        with lock:
            if not jobs:
                break
            f, m, old, txt = jobs.pop(0)
        p = os.path.join(R, f)
        src = open(p).read()
        open(p, "w").write(txt)
        res, t = None, time.time()
        for pid in files[f]:
            pr = subprocess.Popen(["bash", "check.sh", pid], cwd=V,
                                  env=dict(os.environ, VERIF_REPO=R), stdout=subprocess.DEVNULL,
                                  stderr=subprocess.DEVNULL, start_new_session=True)
            try:
                rc = pr.wait(900)
            except subprocess.TimeoutExpired:
                os.killpg(pr.pid, 9)
                pr.wait()
                rc = "timeout"
            if rc == 1:
                res = pid
                break
            if rc != 0:
                res = "ERR(%s):%s" % (rc, pid)
                break
        open(p, "w").write(src)
        with lock:
            tally[bool(res)] += 1
            line = "%s %s %s:%d [%s] %s ==> %s (%.0fs)" % (
                "CAUGHT" if res else "MISSED", res or files[f], f, m[0], m[4],
                old.strip()[:110], m[3][:80], time.time() - t)
            print(line, flush=True)
            if log:
                print(line, file=log, flush=True)
    shutil.rmtree(d, ignore_errors=True)


ts = [threading.Thread(target=work, args=(k,)) for k in range(o.workers)]
[t.start() for t in ts]
[t.join() for t in ts]
print("total %d caught %d" % (sum(tally.values()), tally[True]))

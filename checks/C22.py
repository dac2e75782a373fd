"""Solution arrays: random programs of operations on volumes of random shapes, run by
the library (one and several threads) and by a numpy model; every array is compared
after every few operations."""
import os, sys, subprocess, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
import numpy as np
from vf import build, report, run

EPS = np.finfo(float).eps
M64 = (1 << 64) - 1


def stream(seed, n):
    with np.errstate(over="ignore"):
        s = np.uint64(seed) + np.arange(1, n + 1, dtype=np.uint64) * np.uint64(0x9e3779b97f4a7c15)
        z = s ^ (s >> np.uint64(30)); z *= np.uint64(0xbf58476d1ce4e5b9)
        z ^= z >> np.uint64(27); z *= np.uint64(0x94d049bb133111eb)
        z ^= z >> np.uint64(31)
    return (z >> np.uint64(11)).astype(float) * (4.0 / 9007199254740992.0) - 2.0


class Vol:
    def __init__(self, names, n, g, mem=None):
        self.names, self.n = names, n
        self.g = (g, g if n[1] > 1 else 0, g if n[2] > 1 else 0)
        self.tot = tuple(n[d] + 2 * self.g[d] for d in range(3))
        self.mem = mem or [{"a": np.full(self.tot[::-1], 42.0), "slack": np.zeros(self.tot[::-1])} for _ in names]

    @property
    def nv(self): return len(self.names)
    def key(self): return (self.nv, self.tot)


class Program:
    """Builds a program and its expected output side by side."""
    def __init__(self, rng, length, big):
        self.rng, self.lines, self.expect, self.V, self.n = rng, [], [], {}, 0
        self.length, self.big, self.ops = length, big, {}

    def emit(self, line): self.lines.append(line); self.ops[line.split()[0]] = self.ops.get(line.split()[0], 0) + 1

    def shape(self):
        r = self.rng; nd = r.randrange(1, 4)
        top = {1: 4000, 2: 70, 3: 18}[nd] if self.big else {1: 40, 2: 12, 3: 7}[nd]
        n = [r.randrange(2, top) for _ in range(nd)]
        if r.random() < .2: n[0] = 1 if nd == 1 else n[0]
        return tuple(n + [1] * (3 - nd))

    def new(self):
        r = self.rng; i = self.n; self.n += 1
        kind = r.choice(["new", "new", "instance", "instance", "view", "sized"]) if self.V else "new"
        if kind == "new":
            n, g, nv = self.shape(), r.randrange(0, 5), r.randrange(1, 5)
            self.emit("new %d %d %d %d %d %d" % ((i, nv) + n + (g,)))
            self.V[i] = Vol(["v%d" % k for k in range(nv)], n, g)
        else:
            b = r.choice(list(self.V)); B = self.V[b]
            if kind == "instance":
                self.emit("instance %d %d" % (i, b)); self.V[i] = Vol(list(B.names), B.n, B.g[0])
            elif kind == "sized":
                n = tuple(max(1, B.n[d] * 2 if r.random() < .8 and B.n[d] > 1 else B.n[d]) for d in range(3)) if r.random() < .5 else tuple(2 * x if x > 1 else 1 for x in B.n)
                self.emit("sized %d %d %d %d %d" % ((i, b) + n)); self.V[i] = Vol(list(B.names), n, 0)
            else:
                c = [r.randrange(B.nv) for _ in range(r.randrange(1, 4))]
                c = list(dict.fromkeys(c))
                self.emit("view %d %d %s" % (i, b, " ".join(map(str, c))))
                self.V[i] = Vol(["w%d" % k for k in c], B.n, B.g[0], [B.mem[k] for k in c])
        if kind != "view" and r.random() < .9: self.fill(i)
        return i

    def fill(self, a):
        s = self.rng.randrange(1 << 62); self.emit("fill %d %d" % (a, s))
        A = self.V[a]; N = A.mem[0]["a"].size
        vals = stream(s, N * A.nv)
        for v in range(A.nv): A.mem[v]["a"][...] = vals[v * N:(v + 1) * N].reshape(A.tot[::-1]); A.mem[v]["slack"][...] = 0

    def like(self, a, same=True):
        c = [b for b in self.V if (self.V[b].key() == self.V[a].key()) == same]
        return self.rng.choice(c) if c else None

    def put(self, m, val, slack):
        m["a"][...] = val
        with np.errstate(all="ignore"): m["slack"][...] = np.where(np.isfinite(slack), slack, 0) + 4 * EPS * np.where(np.isfinite(val), np.abs(val), 0)

    def step(self):
        r = self.rng; a = r.choice(list(self.V)); A = self.V[a]
        op = r.choice(["add", "scale", "zero", "linear", "linear", "addpower", "addpowerf", "subpower", "copyto", "setvolume", "mem", "mem", "mems", "mems", "set",
                       "internal", "hostcopy", "tv", "tvdir", "each", "neighbours", "shape", "fill", "bad", "new"])
        num = lambda: r.choice([0., 1., -1., .5, r.uniform(-2, 2)])
        d = lambda m: m["a"].copy()
        ones = lambda B, C: len({id(m) for m in B.mem} & {id(m) for m in C.mem}) == 0 or B is C
        if op == "new":
            if len(self.V) < 9: self.new()
        elif op == "fill": self.fill(a)
        elif op == "zero":
            self.emit("zero %d" % a)
            for m in A.mem: self.put(m, 0., 0.)
        elif op == "scale":
            s = num(); self.emit("scale %d %s" % (a, float(s).hex()))
            for m in A.mem: self.put(m, m["a"] * s, m["slack"] * abs(s))
        elif op == "add":
            b = self.like(a)
            if b is None or not ones(A, self.V[b]): return
            self.emit("add %d %d" % (a, b))
            for m, q in zip(A.mem, self.V[b].mem): self.put(m, m["a"] + q["a"], m["slack"] + q["slack"])
        elif op == "linear":
            ids = [self.like(a) for _ in range(4)]
            if any(not ones(A, self.V[b]) for b in ids): return
            q = [num() for _ in range(5)]
            self.emit("linear %d %s %s" % (a, float(q[0]).hex(), " ".join("%s %d" % (float(q[k + 1]).hex(), ids[k]) for k in range(4))))
            new = []
            for v in range(A.nv):
                t = [(q[0], A.mem[v])] + [(q[k + 1], self.V[ids[k]].mem[v]) for k in range(4)]
                s = 0; sl = 0
                for c, m in t: s = s + c * m["a"]; sl = sl + np.abs(c) * m["slack"] + 8 * EPS * np.abs(c * m["a"])
                new.append((s, sl))
            for m, (s, sl) in zip(A.mem, new): self.put(m, s, sl)
        elif op in ("addpower", "addpowerf", "subpower"):
            b = self.like(a)
            if not ones(A, self.V[b]): return
            p = r.choice([1., 2., 3., 2., 0., 4.]); f = num() if op == "addpowerf" else 1. if op == "addpower" else -1.
            self.emit("%s %d %d %s%s" % (op, a, b, float(p).hex(), " " + float(f).hex() if op == "addpowerf" else ""))
            for m, q in zip(A.mem, self.V[b].mem):
                with np.errstate(all="ignore"):
                    w = np.power(q["a"], p)
                    ps = p * np.abs(q["a"]) ** max(p - 1, 0) * q["slack"] * 2 + 8 * EPS * np.abs(w)
                    self.put(m, m["a"] + f * w, m["slack"] + abs(f) * ps)
        elif op == "copyto":
            b = self.like(a)
            if not ones(A, self.V[b]): return
            self.emit("copyto %d %d" % (a, b))
            for m, q in zip(A.mem, self.V[b].mem): self.put(q, m["a"].copy(), m["slack"].copy())
        elif op == "setvolume":
            c = []
            for b in self.V:
                B = self.V[b]
                if B.nv != A.nv: c.append((b, "bad")); continue
                if B.n == A.n and B.g == A.g: c.append((b, "copy"))
                elif B.n != A.n and sum(A.g) == 0 and sum(B.g) == 0 and all(B.n[k] == 2 * A.n[k] if A.n[k] > 1 or k == 0 else B.n[k] == 1 for k in range(3)): c.append((b, "half"))
                elif B.n[0] // 2 != A.n[0] and B.n != A.n: c.append((b, "bad"))
            half = [x for x in c if x[1] == "half"]
            if not c: return
            b, k = r.choice(half if half and r.random() < .7 else c); B = self.V[b]
            if not ones(A, B): return
            self.emit("setvolume %d %d" % (a, b))
            if k == "bad": self.expect.append("exception"); return
            for m, q in zip(A.mem, B.mem):
                if k == "copy": self.put(m, q["a"].copy(), q["slack"].copy()); continue
                s, sl, cnt = 0, 0, 0
                dx = [range(2), range(2) if A.n[1] > 1 else [0], range(2) if A.n[2] > 1 else [0]]
                st = [2, 2 if A.n[1] > 1 else 1, 2 if A.n[2] > 1 else 1]
                for z in dx[2]:
                    for y in dx[1]:
                        for x in dx[0]:
                            p = q["a"][z::st[2], y::st[1], x::st[0]]; s = s + p; sl = sl + q["slack"][z::st[2], y::st[1], x::st[0]] + 8 * EPS * np.abs(p); cnt += 1
                self.put(m, s / cnt, sl / cnt)
        elif op == "mem":
            b = r.choice(list(self.V)); B = self.V[b]; va, vb = r.randrange(A.nv), r.randrange(B.nv)
            o = r.choice(["+=", "-=", "*=", "/=", "copy"])
            same = A.mem[va]["a"].size == B.mem[vb]["a"].size
            if not same and o == "+=": return
            x, y = A.mem[va], B.mem[vb]
            if same and A.tot != B.tot and r.random() < .8: return
            if o == "/=" and same and (np.abs(y["a"]) < .05).any() : return
            self.emit("mem %s %d %d %d %d" % (o, a, va, b, vb))
            if not same: self.expect.append("exception"); return
            ya, ys = y["a"].reshape(x["a"].shape).copy(), y["slack"].reshape(x["a"].shape).copy()
            if o == "+=": self.put(x, x["a"] + ya, x["slack"] + ys)
            elif o == "-=": self.put(x, x["a"] - ya, x["slack"] + ys)
            elif o == "*=": self.put(x, x["a"] * ya, np.abs(x["a"]) * ys + np.abs(ya) * x["slack"] + ys * x["slack"])
            elif o == "/=": self.put(x, x["a"] / ya, 2 * x["slack"] / np.abs(ya) + 2 * np.abs(x["a"] / ya) * ys / np.abs(ya))
            else: self.put(x, ya, ys)
        elif op == "mems":
            va = r.randrange(A.nv); o = r.choice(["+=", "-=", "*=", "/=", "zero"]); s = num(); x = A.mem[va]
            if o == "/=" and abs(s) < .1: s = 3.
            self.emit("mems %s %d %d %s" % (o, a, va, float(s).hex()))
            if o == "+=": self.put(x, x["a"] + s, x["slack"])
            elif o == "-=": self.put(x, x["a"] - s, x["slack"])
            elif o == "*=": self.put(x, x["a"] * s, x["slack"] * abs(s))
            elif o == "/=": self.put(x, x["a"] / s, x["slack"] / abs(s))
            else: self.put(x, 0., 0.)
        elif op == "set":
            v = r.randrange(A.nv); p = [r.randrange(A.tot[k]) for k in range(3)]; s = r.uniform(-2, 2)
            self.emit("set %d %d %d %d %d %s" % ((a, v) + tuple(p) + (float(s).hex(),)))
            A.mem[v]["a"][p[2], p[1], p[0]] = s; A.mem[v]["slack"][p[2], p[1], p[0]] = 0
        elif op == "internal":
            v = r.randrange(A.nv); self.emit("internal %d %d" % (a, v))
            c = tuple(slice(A.g[k], A.tot[k] - A.g[k]) for k in (2, 1, 0)); m = A.mem[v]
            self.expect.append(("internal", np.append(m["a"][c].ravel(), [-7.5, -7.5]), np.append(m["slack"][c].ravel(), [0, 0])))
        elif op == "hostcopy":
            v = r.randrange(A.nv); self.emit("hostcopy %d %d" % (a, v)); m = A.mem[v]
            self.expect.append(("hostcopy", m["a"].ravel().copy(), m["slack"].ravel().copy()))
        elif op in ("tv", "tvdir"):
            v, p = r.randrange(A.nv), r.randrange(1, 4)
            lo = [r.randrange(0, A.g[k] + 1) for k in range(3)]; hi = [A.tot[k] - r.randrange(0, A.g[k] + 1) for k in range(3)]
            nd = 3 if A.n[2] > 1 else 2 if A.n[1] > 1 else 1
            m = A.mem[v]["a"][lo[2]:hi[2], lo[1]:hi[1], lo[0]:hi[0]]; sl = A.mem[v]["slack"].max()
            box = " ".join(map(str, lo + hi))
            if op == "tv":
                self.emit("tv %d %d %d %s" % (a, v, p, box))
                if A.tot[2] > 1: self.expect.append("exception"); return
                dx = np.diff(m, axis=2); dy = np.diff(m, axis=1)
                if A.tot[1] > 1: q = np.sqrt(dx[:, 1:] ** 2 + dy[:, :, 1:] ** 2)
                else: q = np.abs(dx)
            else:
                e = r.randrange(nd); self.emit("tvdir %d %d %d %d %s" % (a, v, e, p, box))
                q = np.abs(np.diff(m, axis=2 - e))
            t = (q ** p).sum()
            self.expect.append((op, np.array([t]), np.array([(64 * EPS + EPS * q.size) * t + (2 * p * (q ** (p - 1)) * 2 * sl).sum()])))
        elif op == "each":
            lo = [r.randrange(0, max(1, A.tot[k] // 2)) for k in range(3)]; hi = [r.randrange(0, max(1, A.tot[k] // 2)) for k in range(3)]
            self.emit("each %d %s" % (a, " ".join(map(str, lo + hi))))
            I = np.arange(np.prod(A.tot)).reshape(A.tot[::-1])
            self.expect.append(("each", I[lo[2]:A.tot[2] - hi[2], lo[1]:A.tot[1] - hi[1], lo[0]:A.tot[0] - hi[0]].ravel(), None))
        elif op == "neighbours":
            nd = 3 if A.n[2] > 1 else 2 if A.n[1] > 1 else 1; e = r.randrange(nd)
            if A.tot[e] < 3: return
            lo = [r.randrange(0, max(1, A.tot[k] // 3)) for k in range(3)]; hi = [r.randrange(0, max(1, A.tot[k] // 3)) for k in range(3)]
            lo[e], hi[e] = max(lo[e], 1), max(hi[e], 1)
            self.emit("neighbours %d %d %s" % (a, e, " ".join(map(str, lo + hi))))
            I = np.arange(np.prod(A.tot)).reshape(A.tot[::-1])
            I = I[lo[2]:A.tot[2] - hi[2], lo[1]:A.tot[1] - hi[1], lo[0]:A.tot[0] - hi[0]].ravel()
            st = [1, A.tot[0], A.tot[0] * A.tot[1]][e]
            self.expect.append(("neighbours", np.stack([I - st, I, I + st], 1).ravel(), None))
        elif op == "shape":
            self.emit("shape %d" % a)
            nd = 3 if A.n[2] > 1 else 2 if A.n[1] > 1 else 1
            w = [A.nv] + list(A.n) + list(A.g) + list(A.tot) + list(A.tot) + [nd] + list(A.n) + list(A.tot)
            for k, n in enumerate(A.names): w += [n, k, 1]
            self.expect.append(("shape", w + [0], None))
        elif op == "bad":
            b = self.like(a, False)
            if b is None: return
            k = r.choice(["linear", "addpower"])
            if k == "linear":
                x = [a, a, a, a]; x[r.randrange(4)] = b
                self.emit("linear %d 0.5 %s" % (a, " ".join("0.25 %d" % i for i in x))); self.expect.append("exception")
            else:
                if self.V[b].mem[0]["a"].size == A.mem[0]["a"].size: return
                self.emit("addpower %d %d 2" % (a, b)); self.expect.append("exception")

    def big_values(self):
        """Keeps the numbers of the program moderate."""
        for a, A in self.V.items():
            if any((~np.isfinite(m["a"])).any() or np.abs(m["a"]).max() > 1e6 or m["slack"].max() > 1e-8 for m in A.mem): self.fill(a)

    def build(self):
        for _ in range(2): self.new()
        for k in range(self.length):
            self.step(); self.big_values()
            if k % 5 == 4 or k == self.length - 1: self.dump()
        return self

    def dump(self):
        for a, A in self.V.items():
            self.emit("dump %d" % a)
            self.expect.append(("dump", np.concatenate([m["a"].ravel() for m in A.mem]), np.concatenate([m["slack"].ravel() for m in A.mem]), len(self.lines)))


def compare(ck, key, prog, text, threads):
    out = text.splitlines()
    src = {"program": prog.lines if len(prog.lines) < 400 else prog.lines[:400]}
    if len(out) != len(prog.expect):
        ck.violation(key + ":answers", "%d answers instead of %d" % (len(out), len(prog.expect)), src); return
    asked = [l for l in prog.lines]
    for n, (line, e) in enumerate(zip(out, prog.expect)):
        w = line.split()
        if e == "exception":
            ck.count("refusals")
            if w != ["exception"]: ck.violation(key + ":refusal", "answer %d: an operation on mismatching arrays was not refused: %s" % (n, line[:80]), src); return
            continue
        if w[0] != e[0]: ck.violation(key + ":" + e[0], "answer %d is %s instead of %s" % (n, line[:60], e[0]), src); return
        if e[0] == "shape":
            if w[1:] != [str(x) for x in e[1]]: ck.violation(key + ":shape", "shape %s instead of %s" % (w[1:], e[1]), src); return
            ck.saw(("shape", w[1], w[14])); continue
        want = e[1]
        if e[2] is None:
            ok = len(w) - 1 == len(want) and (np.array(w[1:], dtype=int) == want).all()
            ck.saw((e[0],), len(want))
            if not ok: ck.violation(key + ":" + e[0], "%s visits %s... instead of %s..." % (e[0], w[1:12], want[:12].tolist()), src); return
            continue
        got = np.array([float.fromhex(x) if "x" in x else float(x) for x in w[1:]])
        if got.shape != want.shape: ck.violation(key + ":" + e[0], "%d values instead of %d" % (got.size, want.size), src); return
        with np.errstate(all="ignore"): bad = ~(np.abs(got - want) <= e[2]) & ~(got == want) & ~(np.isnan(got) & np.isnan(want))
        ck.saw((e[0], threads), len(want)); ck.count("values", len(want))
        if bad.any():
            i = int(np.flatnonzero(bad)[0]); last = [l for l in prog.lines[:e[3]] if not l.startswith("dump")][-6:] if len(e) > 3 else []
            ck.violation(key + ":" + e[0], "%s value %d is %.17g instead of %.17g, %d of %d differ; last operations %s" % (e[0], i, got[i], want[i], bad.sum(), bad.size, last), src); return
    ck.count("programs")


def body(ck):
    ck.bdir = build.ensure(("alsmon",))
    exe = os.path.join(ck.bdir, "verif", "alsmon")
    np.seterr(all="ignore")

    def one(i):
        np.seterr(all="ignore")
        key = "program-%d" % i
        if ck.only and ck.only not in key: return
        big = i % 8 == 7
        p = Program(random.Random("%s-%d" % (key, ck.seed)), 60 if big else 120, big).build()
        res = {}
        for t in ((1, 4) if big else (1,)):
            q = subprocess.run([exe, "vol"], input="\n".join(p.lines) + "\n", capture_output=True, text=True, env=run.env(t), timeout=300)
            if run.OBSERVE: run.OBSERVE([exe, "vol"], run.Result(q.returncode, "", q.stderr, False, "", 0))
            if q.returncode:
                ck.violation(key + ":run", "the driver ended with %d: %s" % (q.returncode, q.stderr[-200:]), {"program": p.lines}); return
            res[t] = q.stdout
            compare(ck, key, p, q.stdout, t)
        if len(res) == 2 and res[1] != res[4]: ck.violation(key + ":threads", "one and four threads give different values", {"program": p.lines})
        with lock:
            for o, n in p.ops.items(): ck.count("op_" + o, n)
        if i < 3: ck.sample({"program": p.lines[:25]})
    import threading
    lock = threading.Lock()
    run.pool(one, range(2000 if ck.thorough else 120))


if __name__ == "__main__":
    report.main(report.Check("C22", rule="number of (answer kind, threads) and shape classes; evaluations are compared values"), body)

"""P09: option values obey precedence, range and consistency rules."""
import itertools, json, os, random, struct
import vlib

TABLE = json.load(open(os.path.join(vlib.SPEC, "options_table.json")))
hexd = lambda d: struct.pack(">d", d).hex()
hx = lambda s: "h" + s.encode("utf-8", "surrogateescape").hex()
NAN = float("nan")

def nextup(d, up):
    if d == 0: return 1e-100 if up else -1e-100
    b = struct.unpack(">q", struct.pack(">d", abs(d)))[0] + (1 if (d > 0) == up else -1)
    r = struct.unpack(">d", struct.pack(">q", b))[0]
    return r if d > 0 else -r

class Pool:
    """numbers -> order-preserving positions"""
    def __init__(self):
        s = {0.0, -1.0, 1e300, -1e300, 0.5, 1e-9, 1e-10, 1e-3, 1e-2, 1e-5, 1e-6, 1e-7, 1e-8, 1e-12, 0.05, 3.0, 7.0}
        for kd in TABLE:
            for o in TABLE[kd]:
                if o["k"] == "n":
                    for v in (o["d"], o["lo"], o["hi"], (o["lo"] + o["hi"]) / 2, o["lo"] * 2, o["hi"] / 3):
                        s.add(v)
                    for v in (o["lo"], o["hi"]):
                        s.add(nextup(v, True)); s.add(nextup(v, False))
        self.v = sorted(s)
        self.i = {hexd(v if v != 0 else 0.0): i for i, v in enumerate(self.v)}
    def idx(self, h):
        if h == hexd(-0.0): h = hexd(0.0)
        return self.i.get(h, -1)
POOL = Pool()

def table_file(path):
    out = {"zero": POOL.idx(hexd(0.0))}
    for key, kd in (("n", "nlp"), ("p", "pridec")):
        out[key] = {}
        for o in TABLE[kd]:
            e = {"k": o["k"], "lo": 0, "hi": 0, "range": o.get("range", [])}
            if o["k"] == "n":
                e.update(d=POOL.idx(hexd(o["d"])), lo=POOL.idx(hexd(o["lo"])), hi=POOL.idx(hexd(o["hi"])))
            elif o["k"] == "i":
                e.update(d=o["d"], lo=o["lo"], hi=o["hi"])
            else:
                e["d"] = o["d"]
            out[key][o["n"]] = e
    with open(path, "w") as f:
        f.write(json.dumps(out) + "\n")

DEFAULT = {key: {o["n"]: (POOL.idx(hexd(o["d"])) if o["k"] == "n" else o["d"]) for o in TABLE[kd]} for key, kd in (("n", "nlp"), ("p", "pridec"))}

# ---- scripts: file = list of (name, token) or raw text; ops = list of (kind, name, value, fromfile)
WEIRD = ["%s%s%s%n", "%n%n%n%n", "%d", "x" * 300, "a%1000000d", "\\", "%99999999s", "#", "ÿ", "%"]

def rand_num(rng, o):
    c = rng.random()
    if c < .25: return rng.choice([o["lo"], o["hi"]])
    if c < .40: return rng.choice([nextup(o["lo"], False), nextup(o["hi"], True)])
    if c < .50: return rng.choice([nextup(o["lo"], True), nextup(o["hi"], False)])
    if c < .55: return rng.choice([NAN, -1.0, 1e300, -1e300, float("inf")])
    return rng.choice(POOL.v)
def rand_int(rng, o):
    return rng.choice([o["lo"], o["hi"], o["lo"] - 1, min(o["hi"] + 1, 2**31 - 1), rng.randint(o["lo"], o["hi"]), rng.randint(o["lo"], min(o["hi"], o["lo"] + 20)), -2**31, 2**31 - 1, 0])
def rand_str(rng, o):
    r = o.get("range", [])
    if r and rng.random() < .8:
        s = rng.choice(r)
        c = rng.random()
        return s.upper() if c < .15 else s.capitalize() if c < .3 else s
    if rng.random() < .3: return rng.choice(WEIRD)
    return rng.choice(["bogus", "My_File.Opt", "A/b/C.txt", "yes", "no", "linear", "auto "[:4], "full", "x"])
CORE = {"nlp": ["tolerance", "acceptable_tolerance", "dual_tol", "cons_tol", "comp_tol", "Hessian", "KKTLinsys", "duals_update_type",
                "linear_solver_sparse", "fact_acceptor", "moving_lim_abs", "moving_lim_rel", "compute_mode"], "pridec": ["tolerance", "acceptable_tolerance"]}

def pick_opt(rng, kd):
    byname = {o["n"]: o for o in TABLE[kd]}
    return byname[rng.choice(CORE[kd])] if rng.random() < .6 else rng.choice(TABLE[kd])
def rand_val(rng, o):
    return {"n": rand_num, "i": rand_int, "s": rand_str}[o["k"]](rng, o)
def rand_op(rng, kd):
    c = rng.random()
    if c < .03: return ("log",)
    if c < .05: return ("print",)
    o = pick_opt(rng, kd)
    ff = rng.random() < .15
    if c < .12:   # unknown name or wrong kind
        k = rng.choice("nis")
        n = o["n"] if rng.random() < .6 else rng.choice(WEIRD + ["nosuch", o["n"].upper(), o["n"] + "_"])
        v = {"n": lambda: rng.choice(POOL.v), "i": lambda: rng.randint(-3, 5000), "s": lambda: rng.choice(WEIRD + ["auto", "yes"])}[k]()
        return (k, n, v, ff)
    return (o["k"], o["n"], rand_val(rng, o), ff)
def rand_file(rng, kd):
    out = []
    for _ in range(rng.choice([0, 0, 1, 2, 3, 5, 8])):
        c = rng.random()
        if c < .1: out.append(rng.choice(["", "   ", "# tolerance 1e-3", "   #x 2", "tolerance", "\ttolerance"]))
        else:
            o = pick_opt(rng, kd)
            v = rand_val(rng, o)
            tok = repr(v) if o["k"] == "n" else str(v)
            if rng.random() < .08: tok = rng.choice(["1e-3x", "abc", "1.5", "1e2", "--3", "0x10", "1e-6", "12", "99999999999999", "1e400", "%s%n"])
            if not tok.strip() or " " in tok: tok = "x"
            out.append((o["n"] if rng.random() > .05 else rng.choice(["nosuch", "%n%s", o["n"].upper()]), tok))
    return out

def file_line(rng, x):
    if isinstance(x, str): return x
    return rng.choice(["", "  ", "\t"]) + x[0] + rng.choice([" ", "   ", "\t"]) + x[1] + rng.choice(["", " ", " # comment", " extra"])
def as_num(tok):
    import re
    if not re.fullmatch(r"[+-]?(\d+\.?\d*([eE][+-]?\d+)?|\.\d+([eE][+-]?\d+)?)", tok): return -1000000   # never valid
    d = float(tok)
    if d in (float("inf"), float("-inf")): return -1000000
    return POOL.idx(hexd(d)) if hexd(d if d else 0.0) in POOL.i else between(d)
def between(d):
    return None
def as_int(tok):
    import re
    if not re.fullmatch(r"[+-]?\d+", tok): return -2000000000
    return int(tok) if -2**31 <= int(tok) < 2**31 else -2000000000

class Scripts:
    def __init__(self): self.lines, self.metas = [], {}
    def add(self, rng, ident, kd, filel, ops):
        key = "n" if kd == "nlp" else "p"
        self.lines.append("S %s %s" % (ident, key))
        mf, mo = [], []
        for x in filel:
            if not isinstance(x, str):
                num = as_num(x[1])
                if num is None: continue    # a number outside the pool
                mf.append({"n": x[0], "s": x[1], "low": x[1].lower(), "num": num, "int": as_int(x[1])})
            self.lines.append("F " + hx(file_line(rng, x)))
        for o in ops:
            if len(o) == 1:
                mo.append({"k": o[0], "n": "", "v": 0, "s": "", "low": "", "ff": False})
                self.lines.append("L" if o[0] == "log" else "P")
                continue
            k, n, v, ff = o
            m = {"k": k, "n": n, "v": 0, "s": "", "low": "", "ff": ff}
            if k == "n":
                i = POOL.idx(hexd(v))
                m["v"] = i if i >= 0 else (-1000000)     # nan, inf: outside every range
                self.lines.append("N %s %s %d" % (hx(n), hexd(v), ff))
            elif k == "i":
                m["v"] = v
                self.lines.append("I %s %d %d" % (hx(n), v, ff))
            else:
                m["s"] = v; m["low"] = v.lower()
                self.lines.append("T %s %s %d" % (hx(n), hx(v), ff))
            mo.append(m)
        self.metas[ident] = {"kind": key, "file": mf, "ops": mo}

def encode(raw, metas, path):
    """numbers of the recording become pool positions"""
    kinds = {("n" if kd == "nlp" else "p", o["n"]): o["k"] for kd in TABLE for o in TABLE[kd]}
    with open(raw) as f, open(path, "w") as g:
        for l in f:
            d = json.loads(l)
            d["meta"] = metas[d["id"]]
            first = True
            for e in d["ev"]:
                for x in e.get("diff", []):
                    if kinds[(d["meta"]["kind"], x[0])] == "n":
                        x[1] = POOL.idx(x[1])
                if first and e["e"] == "init":     # reported relative to the documented defaults
                    e["diff"] = [x for x in e["diff"] if x[1] != DEFAULT[d["meta"]["kind"]][x[0]] or x[2]]
                first = False
            g.write(json.dumps(d) + "\n")
    return path

def exhaustive(S, rng, depth):
    """every sequence up to `depth` over small alphabets of interacting assignments"""
    A = {"tol": [("n", "tolerance", v, ff) for v in (1e-10, 1e-5, 1e-2) for ff in (False, True)] +
                [("n", "acceptable_tolerance", v, ff) for v in (1e-12, 1e-9) for ff in (False, True)] + [("n", "cons_tol", 1e-9, False), ("n", "tolerance", 0.5, False)],
         "kkt": [("s", "Hessian", "quasinewton_approx", False), ("s", "Hessian", "analytical_exact", False), ("s", "KKTLinsys", "full", False), ("s", "KKTLinsys", "condensed", True),
                 ("s", "KKTLinsys", "xycyd", False), ("s", "linear_solver_sparse", "ma57", False), ("s", "linear_solver_sparse", "strumpack", False),
                 ("s", "fact_acceptor", "inertia_correction", False), ("s", "duals_update_type", "lsq", False), ("s", "linear_solver_sparse", "resolve", True)],
         "mov": [("n", "moving_lim_abs", 0.5, False), ("n", "moving_lim_rel", 0.5, False), ("n", "moving_lim_abs", 0.0, True), ("n", "moving_lim_rel", 0.5, True),
                 ("n", "moving_lim_rel", 2.0, False), ("i", "max_iter", 0, False), ("i", "max_iter", 7, False), ("i", "max_iter", 9, True)]}
    for nm, al in sorted(A.items()):
        for k in range(1, depth + 1):
            for seq in itertools.product(range(len(al)), repeat=k):
                S.add(rng, "ex-%s-%s" % (nm, ".".join(map(str, seq))), "nlp", [], [al[i] for i in seq])

def run(c):
    for cfg in ["OptionsMC_num.cfg", c.pick("OptionsMC_strq.cfg", "OptionsMC_str.cfg")]:
        c.tlc_design("OptionsMC", cfg)
    for cfg in ["OptionsBad_nomoving.cfg", "OptionsBad_noprec.cfg"]:
        c.tlc_refutes("OptionsMC", cfg)
    exe = vlib.build_harness("options")
    tab = os.path.join(c.work, "table.json"); table_file(tab)
    ht = os.path.join(c.work, "table.txt")
    with open(ht, "w") as f:
        for kd, key in (("nlp", "n"), ("pridec", "p")):
            for o in TABLE[kd]: f.write("%s %s %s\n" % (key, o["n"], o["k"]))
    S = Scripts()
    rng = random.Random(c.seed)
    for i in range(c.pick(400, 4000)):
        kd = "pridec" if i % 8 == 0 else "nlp"
        S.add(rng, "rand-%d-%d" % (c.seed, i), kd, rand_file(rng, kd), [rand_op(rng, kd) for _ in range(rng.randint(0, 25))])
    # every option alone: every valid and boundary value, from the file and at run time
    for kd in ("nlp", "pridec"):
        for o in TABLE[kd]:
            vals = {"n": lambda: [o["lo"], o["hi"], nextup(o["lo"], False), nextup(o["hi"], True), o["d"], NAN], "i": lambda: [o["lo"], o["hi"], o["lo"] - 1, min(2**31 - 1, o["hi"] + 1), o["d"]],
                    "s": lambda: o["range"] + ["bogus", "", o["d"].upper()]}[o["k"]]()
            for ff in (False, True):
                S.add(rng, "one-%s-%s-%d" % (kd, o["n"], ff), kd, [], [(o["k"], o["n"], v, ff) for v in vals] + [("log",)] + [(o["k"], o["n"], v, False) for v in vals[:2]])
            for q, v in enumerate(vals[:2]):
                tok = (repr(v) if o["k"] == "n" else str(v)) or "x"
                S.add(rng, "file-%s-%s-%d" % (kd, o["n"], q), kd, [(o["n"], tok)], [(o["k"], o["n"], v2, False) for v2 in vals[1:3]])
    exhaustive(S, rng, c.pick(3, 4) if False else 3)
    script = os.path.join(c.work, "script.txt")
    with open(script, "w") as f: f.write("\n".join(S.lines) + "\n")
    n = [0]
    def rec(only=None):
        n[0] += 1
        raw = os.path.join(c.work, "raw%d.ndjson" % n[0])
        rc, err = vlib.run_harness(exe, [raw, script, ht] + ([only] if only else []))
        if rc: raise vlib.CheckError("options harness failed rc=%s: %s" % (rc, err))
        return encode(raw, S.metas, os.path.join(c.work, "tr%d.ndjson" % n[0]))
    p = rec()
    env = {"TABLE_FILE": tab}
    c.traces("OptionsTrace", "Trace.cfg", p, rerun=rec, chunk=1500, env=env)
    def d_val(d):
        for e in d["ev"][1:]:
            if e.get("diff"):
                x = e["diff"][0]; x[1] = x[1] + 1 if isinstance(x[1], int) else x[1] + "x"; return d
    def d_ud(d):
        for e in d["ev"][1:]:
            if e.get("diff"): e["diff"][0][2] = not e["diff"][0][2]; return d
    def d_drop(d):
        for e in d["ev"][1:]:
            if e.get("diff"): e["diff"] = []; return d
    def d_side(d):
        if d["meta"]["kind"] == "n":
            for e in d["ev"][1:]: e["diff"].append(["max_soc_iter", 5, False]); return d
    if not c.viol:
        c.binding_demo("OptionsTrace", "Trace.cfg", p, [("wrong value", d_val), ("wrong origin", d_ud), ("ignored assignment", d_drop), ("side effect", d_side)], env=env)
    c.assumptions += ["the documented option table (spec/options_table.json) was taken from the registered options once",
                      "options of features not built here (GPU, AXOM checkpointing) follow the documented fallback"]

"""Common machinery of the checks: building /repo, compiling harnesses, running TLC, reporting."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """The check itself could not do its work: an error exit, never a violation."""


def sh(cmd, **kw):
    kw.setdefault("stdout", subprocess.PIPE)
    kw.setdefault("stderr", subprocess.STDOUT)
    return subprocess.run(cmd, **kw)


# ---------------------------------------------------------------- building
def _src_files():
    out = []
    for top in ("src", "cmake"):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds.sort()
            for f in sorted(fs):
                out.append(os.path.join(d, f))
    out.append(os.path.join(REPO, "CMakeLists.txt"))
    return out


def tree_hash():
    h = hashlib.sha256()
    for f in _src_files():
        if not os.path.isfile(f):
            continue
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:16]


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.p = os.path.join(BUILD, name + ".lock")

    def __enter__(self):
        self.f = open(self.p, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


CMAKE_FLAGS = ("-DCMAKE_C_COMPILER=/usr/bin/gcc -DCMAKE_CXX_COMPILER=/usr/bin/g++ "
               "-DCMAKE_Fortran_COMPILER=/usr/bin/gfortran -DCMAKE_BUILD_TYPE=RelWithDebInfo "
               "-DBLA_VENDOR=Generic -DHIOP_USE_MPI=ON -DHIOP_DEEPCHECKS=ON -DHIOP_BUILD_SHARED=OFF "
               "-DHIOP_BUILD_STATIC=ON -DHIOP_USE_EIGEN=ON -DHIOP_EIGEN_DIR=/usr/include/eigen3 "
               "-DHIOP_WITH_KRON_REDUCTION=ON -DHIOP_UMFPACK_DIR=/usr -DHIOP_METIS_DIR=/usr "
               "-DHIOP_SPARSE=OFF -DHIOP_USE_GPU=OFF -DHIOP_USE_RAJA=OFF -DHIOP_USE_AXOM=OFF "
               "-DHIOP_BUILD_DOCUMENTATION=OFF -DHIOP_WITH_MAKETEST=OFF -DHIOP_WITH_VALGRIND_TESTS=OFF").split()


def build_lib():
    """Builds libhiop.a from /repo's working tree; returns the build directory (keyed by content)."""
    key = tree_hash()
    B = os.path.join(BUILD, "lib-" + key)
    with Lock("lib"):
        stamp = os.path.join(B, "OK")
        if not os.path.exists(stamp):
            olds = sorted((os.path.getmtime(os.path.join(BUILD, d)), d) for d in os.listdir(BUILD) if d.startswith("lib-") and os.path.isdir(os.path.join(BUILD, d)))
            for _, d in olds[:-3]:
                shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
            shutil.rmtree(B, ignore_errors=True)
            os.makedirs(B)
            r = sh(["cmake", "-S", REPO, "-B", B, "-G", "Ninja",
                    "-DCMAKE_C_FLAGS_RELWITHDEBINFO=-O2 -g1", "-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=-O2 -g1 -DOMPI_SKIP_MPICXX",
                    "-DCMAKE_Fortran_FLAGS_RELWITHDEBINFO=-O2 -g1"] + CMAKE_FLAGS)
            if r.returncode:
                raise CheckError("cmake failed:\n" + r.stdout.decode(errors="replace")[-3000:])
            r = sh(["ninja", "-C", B, "hiop_static"])
            if r.returncode:
                raise CheckError("build failed:\n" + r.stdout.decode(errors="replace")[-3000:])
            libs = []
            for d, _, fs in os.walk(B):
                libs += [os.path.join(d, f) for f in fs if f == "libhiop.a"]
            if len(libs) != 1:
                raise CheckError("libhiop.a not found: %s" % libs)
            with open(stamp, "w") as f:
                f.write(libs[0])
    with open(stamp) as f:
        lib = f.read().strip()
    return B, lib


def include_flags(B):
    dirs = []
    for sub in ("Interface", "Optimization", "LinAlg", "Utils", "ExecBackends"):
        p = os.path.join(REPO, "src", sub)
        if os.path.isdir(p):
            dirs.append(p)
    dirs += [B, os.path.join(B, "src"), os.path.join(REPO, "src"), HARN]
    inc = ["-I" + d for d in dirs]
    inc += ["-I/usr/include/eigen3", "-I/usr/include/suitesparse",
            "-I/usr/lib/x86_64-linux-gnu/openmpi/include"]
    return inc


def build_harness(name, extra_src=(), flags=(), libs=()):
    """Compiles harness/<name>.cpp (+ fakempi) against the current library."""
    B, lib = build_lib()
    srcs = [os.path.join(HARN, name + ".cpp"), os.path.join(HARN, "fakempi.cpp")] + [os.path.join(HARN, s) for s in extra_src]
    h = hashlib.sha256()
    for s in srcs + [os.path.join(HARN, f) for f in sorted(os.listdir(HARN)) if f.endswith(".h")]:
        with open(s, "rb") as f:
            h.update(f.read())
    h.update(repr((flags, libs)).encode())
    exe = os.path.join(B, "h-%s-%s" % (name, h.hexdigest()[:12]))
    with Lock("harness-" + name):
        if os.path.exists(exe):
            return exe
        objs = []
        procs = []
        for s in srcs:
            o = os.path.join(B, "o-%s-%s.o" % (name, os.path.basename(s)))
            objs.append(o)
            cmd = ["g++", "-std=c++17", "-O1", "-g1", "-w", "-DOMPI_SKIP_MPICXX", "-DMPICH_SKIP_MPICXX"] + list(flags) + include_flags(B) + ["-c", s, "-o", o]
            procs.append((s, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        for s, p in procs:
            out = p.communicate()[0]
            if p.returncode:
                raise CheckError("harness %s does not compile:\n%s" % (s, out.decode(errors="replace")[-4000:]))
        link = ["g++", "-o", exe + ".tmp"] + objs + [lib] + list(libs) + \
            ["-lumfpack", "-lcholmod", "-lamd", "-lcolamd", "-lsuitesparseconfig", "-lmetis",
             "-llapack", "-lblas", "-lgfortran", "-L/usr/lib/x86_64-linux-gnu/openmpi/lib", "-lmpi", "-lpthread", "-ldl", "-lm"]
        r = sh(link)
        if r.returncode:
            raise CheckError("harness %s does not link:\n%s" % (name, r.stdout.decode(errors="replace")[-4000:]))
        os.rename(exe + ".tmp", exe)
    return exe


def run_harness(exe, args, timeout=600, env=None, cwd=None):
    """Runs a harness in a scratch directory; stdout of the library goes to /dev/null."""
    e = dict(os.environ)
    e.update({"OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1"})
    if env:
        e.update(env)
    tmp = None
    if cwd is None:
        tmp = tempfile.mkdtemp(prefix="vh-")
        cwd = tmp
    try:
        try:
            r = subprocess.run([exe] + [str(a) for a in args], cwd=cwd, env=e, timeout=timeout,
                               stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        except subprocess.TimeoutExpired:
            raise CheckError("harness %s timed out after %ss" % (os.path.basename(exe), timeout))
        return r.returncode, "\n".join([l for l in r.stderr.decode(errors="replace").split("\n") if "WARNING" not in l][-60:])
    finally:
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)


# ---------------------------------------------------------------- TLC
class TLCResult:
    pass


def run_tlc(module, cfg, env=None, workers=4, timeout=800, deadlock=False, jopts=("-Xmx6g",), args=(), dfid=False):
    """Runs TLC on spec/<module>.tla with spec/<cfg>; never raises on a property violation."""
    meta = tempfile.mkdtemp(prefix="tlc-")
    try:
        e = dict(os.environ)
        if env:
            e.update({k: str(v) for k, v in env.items()})
        e.pop("JAVA_TOOL_OPTIONS", None)
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m"] + list(jopts)
        if dfid:
            cmd += ["-Dtlc2.tool.queue.IStateQueue=StateDeque"]
        cmd += ["-cp", TLAJAR, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
                "-config", os.path.join(SPEC, cfg)]
        if not deadlock:
            cmd += ["-deadlock"]
        cmd += list(args) + [os.path.join(SPEC, module + ".tla")]
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s/%s" % (module, cfg))
        out = r.stdout.decode(errors="replace")
        res = TLCResult()
        res.out, res.rc = out, r.returncode
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
        res.generated, res.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.search(r"The depth of the complete state graph search is (\d+)", out)
        res.depth = int(m.group(1)) if m else 0
        res.ok = "Model checking completed. No error has been found." in out
        m = re.search(r"Error: (Invariant|Action property|Temporal properties?|Deadlock|Property) ?(\S*)", out)
        res.violated = (m.group(1) + " " + m.group(2)).strip() if m else None
        if "Temporal properties were violated" in out:
            res.violated = "temporal property"
        res.prints = [unq(l) for l in out.splitlines() if l.startswith('"@')]
        return res
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def unq(l):
    """PrintT of a TLA+ string prints it quoted, with \\ escapes."""
    s = l.strip()
    if s.startswith('"') and s.endswith('"'):
        s = s[1:-1]
        s = s.replace('\\\\', '\0').replace('\\"', '"').replace('\0', '\\')
    return s


def validate_traces(module, cfg, path, env=None, workers=8, timeout=800, chunk=None):
    """Trace validation.  Every trace (one JSON line of `path`) must produce a line
       @DONE {"t":<index from 1>,"e":[...rule names...]} from the trace specification.
       Returns (TLCResult-like totals, {index0: [errors]})."""
    with open(path) as f:
        lines = [l for l in f.read().split("\n") if l.strip()]
    n = len(lines)
    if n == 0:
        raise CheckError("no traces recorded in " + path)
    chunks = [lines] if not chunk else [lines[i:i + chunk] for i in range(0, n, chunk)]
    tot = TLCResult()
    tot.generated = tot.distinct = 0
    errs, seen = {}, set()
    off = 0
    for ch in chunks:
        fd, tp = tempfile.mkstemp(prefix="tr-", suffix=".ndjson")
        with os.fdopen(fd, "w") as f:
            f.write("\n".join(ch) + "\n")
        ev = dict(env or {})
        ev["TRACE_FILE"] = tp
        r = run_tlc(module, cfg, env=ev, workers=workers, timeout=timeout)
        os.unlink(tp)
        if not r.ok:
            raise CheckError("TLC failed on %s: %s" % (module, tail_err(r.out)))
        tot.generated += r.generated
        tot.distinct += r.distinct
        for p in r.prints:
            if p.startswith("@DONE "):
                d = json.loads(p[6:])
                i = off + d["t"] - 1
                seen.add(i)
                es = d["e"]
                es = list(es.values()) if isinstance(es, dict) else list(es)
                if i in errs:
                    # several completions of one trace: accepted if any is error free
                    if len(es) < len(errs[i]):
                        errs[i] = es
                else:
                    errs[i] = es
        off += len(ch)
    if len(seen) != n:
        missing = [i for i in range(n) if i not in seen][:5]
        raise CheckError("%s: %d of %d traces were not processed (first: %s)" % (module, n - len(seen), n, missing))
    tot.traces = n
    return tot, {i: e for i, e in errs.items() if e}


def tail_err(out):
    i = out.find("Error:")
    return out[i:i + 900] if i >= 0 else out[-2500:]


# ---------------------------------------------------------------- reporting
def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        d = json.load(f)
    return [k for k in d.get("findings", []) if k["property"] == pid]


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.viol = []      # (key, description, replay object)
        self.known = {}
        self.assumptions = []
        self.kf = known_findings(pid)
        self.work = tempfile.mkdtemp(prefix="chk-%s-" % pid)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, q, t):
        return t if self.thorough else q

    def add(self, **kw):
        for k, v in kw.items():
            if isinstance(v, (int, float)) and isinstance(self.cov.get(k), (int, float)):
                self.cov[k] += v
            else:
                self.cov[k] = v

    def sample(self, s):
        if len(self.cov["samples"]) < 6:
            self.cov["samples"].append(s)

    def tlc_design(self, module, cfg, workers=8, timeout=600, args=(), env=None, what=None):
        """Model checks a design configuration; a violation here is an error of the specification
           (it does not depend on /repo)."""
        r = run_tlc(module, cfg, workers=workers, timeout=timeout, args=args, env=env)
        if not r.ok:
            raise CheckError("design model %s/%s is broken: %s" % (module, cfg, tail_err(r.out)))
        self.add(states=r.distinct, transitions=r.generated)
        self.cov.setdefault("design_models", {})[cfg] = {"distinct": r.distinct, "generated": r.generated, "depth": r.depth}
        return r

    def tlc_refutes(self, module, cfg, env=None, timeout=300):
        """Vacuity control: a deliberately broken variant of the design must be refuted."""
        r = run_tlc(module, cfg, env=env, workers=4, timeout=timeout)
        if r.ok or not r.violated:
            raise CheckError("broken variant %s/%s was not refuted: %s" % (module, cfg, tail_err(r.out)))
        self.cov.setdefault("broken_variants_refuted", []).append(cfg)

    def violation(self, key, desc, replay=None):
        """key identifies the failing input/rule (matched against the known findings)."""
        for k in self.kf:
            if re.fullmatch(k["match"], key):
                self.known.setdefault(k["id"], (k, key))
                return
        self.viol.append((key, desc, replay))

    def traces(self, module, cfg, path, rerun=None, rules=None, key=None, **kw):
        """Validates a trace file and reports each rejected trace.  rerun(id) must record the scenario once more and
           return the path of the new file; a rejection is reported only if it repeats.  `rules` restricts the check to
           the rule names with one of the given prefixes (one recording can serve several properties)."""
        r, errs = validate_traces(module, cfg, path, **kw)
        self.add(states=r.distinct, transitions=r.generated, traces_validated_against_impl=r.traces)
        mine = lambda es: sorted(set(e for e in es if rules is None or any(rule_of(e).startswith(p) for p in rules)))
        errs = {i: mine(es) for i, es in errs.items() if mine(es)}
        with open(path) as f:
            lines = [l for l in f.read().split("\n") if l.strip()]
        if lines:
            self.sample(short(lines[0]))
        reported = 0
        for i, es in sorted(errs.items()):
            tr = json.loads(lines[i])
            names = sorted(set(map(rule_of, es)))
            new = [n for n in names if not self.is_known("%s/%s" % (tr.get("id", i), n))]
            if new and rerun is not None and reported < 12:
                p2 = rerun(tr.get("id", i))
                _, e2 = validate_traces(module, cfg, p2, **kw)
                again = set(map(rule_of, mine(e2.get(0, []))))
                gone = [n for n in names if n not in again]
                if gone:
                    self.cov.setdefault("unrepeatable_rejections", []).append([tr.get("id", i), gone])
                    names = [n for n in names if n in again]
            if new:
                reported += 1
            for n in names:
                self.violation("%s/%s" % (tr.get("id", i), n), "recorded execution %s is not a behaviour of %s: %s" %
                               (tr.get("id", i), module, ", ".join(e for e in es if rule_of(e) == n)[:300]), tr)
        if self.cov.get("unrepeatable_rejections") and not self.viol and not self.known:
            raise CheckError("rejections did not repeat: %s" % self.cov["unrepeatable_rejections"][:3])
        return r, errs

    def is_known(self, key):
        return any(re.fullmatch(k["match"], key) for k in self.kf)

    def binding_demo(self, module, cfg, path, corrupt, **kw):
        """Shows that the trace specification is bound: a corrupted copy of accepted traces must be rejected."""
        with open(path) as f:
            lines = [l for l in f.read().split("\n") if l.strip()]
        out, names = [], []
        for name, fn in corrupt:
            for l in lines:
                d = json.loads(l)
                d2 = fn(d)
                if d2 is not None:
                    out.append(json.dumps(d2)); names.append(name)
                    break
        if len(out) != len(corrupt):
            raise CheckError("binding demonstration: no trace to corrupt for %s" % (set(n for n, _ in corrupt) - set(names)))
        p = os.path.join(self.work, "corrupt-%s.ndjson" % module)
        with open(p, "w") as f:
            f.write("\n".join(out) + "\n")
        _, errs = validate_traces(module, cfg, p, **kw)
        missed = [n for i, n in enumerate(names) if i not in errs]
        if missed:
            raise CheckError("binding demonstration failed: corrupted traces accepted: %s" % missed)
        self.cov["corrupted_traces_rejected"] = self.cov.get("corrupted_traces_rejected", 0) + len(out)

    def finish(self):
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        if not self.cov["samples"]:
            self.cov["samples"] = ["none recorded"]
        os.makedirs(os.path.join(VERIF, "evidence", "replays"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for kid, (k, key) in sorted(self.known.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        if self.viol:
            for n, (key, desc, rep) in enumerate(self.viol[:10]):
                rp = os.path.join(VERIF, "evidence", "replays", "%s-%d.json" % (self.pid, n + 1))
                with open(rp, "w") as f:
                    json.dump({"property": self.pid, "key": key, "what": desc, "seed": self.seed, "tier": self.tier, "replay": rep}, f, indent=1, default=str)
                print("  %s: %s" % (key, desc))
                print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            if len(self.viol) > 10:
                print("  ... and %d more" % (len(self.viol) - 10))
            rc = 1
        else:
            print("%s: held (%s tier, %.1f s, %s)" % (self.pid, self.tier, time.time() - self.t0,
                  ", ".join("%s=%s" % (k, v) for k, v in self.cov.items() if isinstance(v, int))))
            rc = 0
        sys.stdout.flush()
        return rc

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)


def short(line, n=1500):
    return line if len(line) <= n else line[:n] + " ...(%d characters)" % len(line)


def rule_of(e):
    """errors are strings 'rule' or 'rule@detail' or lists [rule, detail...]"""
    if isinstance(e, (list, tuple)):
        return str(e[0])
    return str(e).split("@")[0]

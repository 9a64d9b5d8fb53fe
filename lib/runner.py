"""Compiles harness units against /repo's current headers, executes them symbolically, replays counterexamples."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
INC = os.path.join(REPO, "include")
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
CXX = ["clang++", "-std=c++20", "-O1", "-gline-tables-only", "-fno-exceptions", "-fno-vectorize", "-fno-slp-vectorize",
       "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-DVS_SYMBOLIC", "-Wno-trigraphs", "-Wno-unused-value", "-fbracket-depth=2048", "-ftemplate-depth=4096", "-fconstexpr-steps=500000000", "-w",
       "-I", INC, "-I", HARNESS]
NATIVE = ["clang++", "-std=c++20", "-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize=function", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer",
          "-w", "-Wno-trigraphs", "-fbracket-depth=2048", "-ftemplate-depth=4096", "-fconstexpr-steps=500000000", "-I", INC, "-I", HARNESS, "-rdynamic"]
NATIVE_GCC = ["g++", "-std=c++20", "-O2", "-w", "-ftemplate-depth=4096", "-fconstexpr-ops-limit=4000000000", "-fconstexpr-loop-limit=10000000", "-I", INC, "-I", HARNESS, "-rdynamic"]


class Unit:
    """One harness: C++ text defining extern "C" functions, and the runs (function, args) over it."""
    __slots__ = ("decl", "jobs", "label", "weight", "solo", "prelude", "probes", "probe_of")

    def __init__(self, decl, jobs, label, weight=1.0, solo=False, prelude=""):
        self.decl, self.jobs, self.label, self.weight, self.solo, self.prelude = decl, jobs, label, weight, solo, prelude
        self.probes = None       # programs of which only matters whether they compile; the verdicts replace @TABLE@ in decl
        self.probe_of = None     # index of the probe selected by the input bytes of a counterexample


def lit(text):
    """C++ string literal of arbitrary bytes (given as str with code points < 256)."""
    out = []
    for ch in text:
        o = ord(ch)
        out.append(ch if (ch.isalnum() and o < 128) or ch in " _" else "\\%03o" % o)
    return '"' + "".join(out) + '"'


class Result:
    def __init__(self):
        self.runs = []           # engine records
        self.violations = []     # confirmed
        self.unreproduced = []
        self.inconclusive = []   # (label, fn, args, status)
        self.files = {}          # source file -> (functions, lines)
        self.compile_s = 0.0
        self.tus = 0
        self.programs = 0
        self.validated = 0
        self.validation_failures = []
        self.errors = []
        self.skipped_units = 0
        self.probes = 0


class Runner:
    def __init__(self, prop, preludes, tier="quick", time_per_run=20.0, deadline=600.0, steps=None, jobs=None, witness_tus=2,
                 tu_weight=10.0, known=None, cost=150000):
        self.prop, self.preludes, self.tier = prop, preludes, tier
        self.time_per_run, self.deadline = time_per_run, deadline
        self.steps = steps
        self.cost = cost
        self.nproc = jobs or os.cpu_count() or 8
        self.res = Result()
        self.lock = threading.Lock()
        self.stop = threading.Event()
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="mregex-verif-")
        self.witness_tus = witness_tus
        self.tu_weight = tu_weight
        self.engine = None
        self.known = known or []
        self.known_hits = []

    # -- engine ------------------------------------------------------------------------------
    def _build_engine(self):
        os.makedirs(BUILD, exist_ok=True)
        r = subprocess.run(["bash", os.path.join(VERIF, "engine", "build.sh"), BUILD], capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError("engine does not build:\n" + r.stderr[-3000:])
        return os.path.join(BUILD, "xsym")

    def _build_pch(self):
        """The headers common to all translation units, parsed once per run (from the current tree)."""
        head, out = os.path.join(self.tmp, "pre.hpp"), os.path.join(self.tmp, "pre.pch")
        open(head, "w").write("\n".join('#include "%s"' % h for h in self.preludes) + "\n")
        rc, _ = self._compile(head, out, CXX, ["-x", "c++-header"])
        return out if rc == 0 else None

    # -- programs that may not compile ------------------------------------------------------------
    PROBE_HEAD = "#include <mregex.hpp>\n#include <forward_list>\n#include <string>\n"

    def _probe(self, units):
        head, pch = os.path.join(self.tmp, "probe.hpp"), os.path.join(self.tmp, "probe.pch")
        open(head, "w").write(self.PROBE_HEAD)
        flags = [f for f in CXX if f != "-gline-tables-only"]
        rc, err = self._compile(head, pch, flags, ["-x", "c++-header"])
        if rc:
            self.res.errors.append("the library does not compile: " + err[:1500])
            return False

        def one(text):
            try:
                r = subprocess.run(flags + ["-include-pch", pch, "-fsyntax-only", "-x", "c++", "-"], input=text, capture_output=True, text=True, timeout=60)
            except subprocess.TimeoutExpired:
                return 2
            return 1 if r.returncode == 0 else 0 if r.returncode == 1 and "error:" in r.stderr and "PLEASE submit" not in r.stderr else 2
        t = time.time()
        with cf.ThreadPoolExecutor(max_workers=self.nproc) as ex:
            for u in units:
                u.probes = (u.probes, [ex.submit(one, p) for p in u.probes])
            for u in units:
                u.probes = (u.probes[0], [f.result() for f in u.probes[1]])
                u.decl = u.decl.replace("@TABLE@", ", ".join(str(v) for v in u.probes[1]))
        self.res.compile_s += (time.time() - t) * self.nproc
        self.res.probes = sum(len(u.probes[1]) for u in units)
        return True

    def _probe_agrees(self, unit, data, rdir, name):
        """The other compiler has to treat the program in question in the same way; its text is part of the replay."""
        k = unit.probe_of(data)
        text, verdict = unit.probes[0][k], unit.probes[1][k]
        src = os.path.join(rdir, name + "-use.cpp")
        open(src, "w").write(self.PROBE_HEAD + text)
        rc, _ = self._compile(src, os.devnull, NATIVE_GCC, ["-fsyntax-only"])
        return (rc == 0) == bool(verdict), src, verdict

    # -- translation units -------------------------------------------------------------------
    def _source(self, units):
        pre = []
        for h in self.preludes:
            pre.append('#include "%s"' % h)
        for u in units:
            if u.prelude and u.prelude not in pre:
                pre.append(u.prelude)
        return "\n".join(pre) + "\n" + "\n".join(u.decl for u in units) + "\n"

    def _compile(self, src, out, flags, extra=()):
        t = time.time()
        try:
            r = subprocess.run(flags + list(extra) + [src, "-o", out], capture_output=True, text=True, timeout=400)
            rc, err = r.returncode, r.stderr
        except subprocess.TimeoutExpired:
            rc, err = -1, "compiler timed out"
        with self.lock:
            self.res.compile_s += time.time() - t
        return rc, err

    def _tu(self, k, units, validate):
        if self.stop.is_set() or time.time() - self.t0 > self.deadline:
            with self.lock:
                self.res.skipped_units += len(units)
            return
        base = os.path.join(self.tmp, "tu%d" % k)
        src = base + ".cpp"
        open(src, "w").write(self._source(units))
        pch = self.pch.result()
        rc, err = self._compile(src, base + ".bc", CXX, (["-include-pch", pch] if pch else []) + ["-emit-llvm", "-c"])
        if rc and pch:
            rc, err = self._compile(src, base + ".bc", CXX, ["-emit-llvm", "-c"])
        if rc:
            if len(units) > 1:
                # find the unit(s) that do not compile; the others are still decided
                for j, u in enumerate(units):
                    self._tu(k * 1000 + j + 1, [u], False)
                return
            self._compile_failure(units[0], src, err)
            return
        jobs = [(f, a) for u in units for f, a in u.jobs]
        labels = {f: u.label for u in units for f, _ in u.jobs}
        with open(base + ".jobs", "w") as jf:
            for f, a in jobs:
                jf.write(" ".join([f] + [str(x) for x in a]) + "\n")
        engine = self.engine.result()
        left = max(5.0, self.deadline - (time.time() - self.t0))
        cmd = [engine, base + ".bc", base + ".jobs", "--time", str(self.time_per_run), "--total", str(left), "--cost", str(self.cost)]
        if self.steps:
            cmd += ["--steps", str(self.steps)]
        if validate:
            cmd += ["--witness", "3"]
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, timeout=left + 60)
            out, rc, err = p.stdout, p.returncode, p.stderr
        except subprocess.TimeoutExpired as e:
            out, rc, err = (e.stdout or b"").decode() if isinstance(e.stdout, bytes) else (e.stdout or ""), -1, "engine timed out"
        recs = []
        for line in out.splitlines():
            try:
                recs.append(json.loads(line))
            except ValueError:
                pass
        done = set()
        cexs = []
        with self.lock:
            self.res.tus += 1
            self.res.programs += len(units)
            for d in recs:
                if "summary" in d:
                    for f, v in d["summary"].items():
                        fn, ln = self.res.files.setdefault(f, (set(), set()))
                        fn.update(v["functions"]); ln.update(v["lines"])
                    continue
                done.add(d["fn"])
                d["label"] = labels.get(d["fn"], "?")
                st = d["status"]
                if st == "skipped":
                    self.res.inconclusive.append((d["label"], d["fn"], d["args"], st))
                    continue
                self.res.runs.append(d)
                if d["cex"]:
                    cexs.append(d)
                elif st != "ok":
                    self.res.inconclusive.append((d["label"], d["fn"], d["args"], st))
            missing = [j for j in jobs if j[0] not in done]
            for f, a in missing:
                self.res.inconclusive.append((labels[f], f, a, "engine ended: rc=%s %s" % (rc, err[-200:])))
        if cexs:
            self._replay(base, src, units, cexs)
        if validate and not self.stop.is_set():
            self._validate(base, src, recs)
        for suffix in (".bc", ".jobs"):
            try:
                os.unlink(base + suffix)
            except OSError:
                pass

    # -- replay ------------------------------------------------------------------------------
    def _run_native(self, exe, fn, args, data, limit=30):
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=0", UBSAN_OPTIONS="print_stacktrace=1")
        cmd = [exe, fn, str(len(args))] + [str(x) for x in args] + [str(b) for b in data]
        try:
            r = subprocess.run(["bash", "-c", "ulimit -c 0; exec \"$@\"", "x"] + cmd, capture_output=True, timeout=limit, env=env)
            return r.returncode, (r.stdout + r.stderr).decode("latin1")
        except subprocess.TimeoutExpired:
            return "timeout", ""

    def _replay(self, base, src, units, cexs):
        exes = []
        rc, err = self._compile(src, base + ".san", NATIVE, [os.path.join(HARNESS, "native.cpp")])
        if rc == 0:
            exes.append((base + ".san", NATIVE))
        tried_gcc = False
        for d in cexs:
            for c in d["cex"]:
                if c["msg"].startswith("recursion deeper") and d["args"] and d["args"][0] >= 100:
                    # a long text exhausts any stack when the matching code recurses per character: not a wrong result
                    with self.lock:
                        self.res.inconclusive.append((d["label"], d["fn"], d["args"], "recursion too deep on a long text"))
                    continue
                for attempt in range(2):
                    if attempt == 1:
                        if not tried_gcc:
                            tried_gcc = True
                            rc, err = self._compile(src, base + ".gcc", NATIVE_GCC, [os.path.join(HARNESS, "native.cpp")])
                            if rc == 0:
                                exes.append((base + ".gcc", NATIVE_GCC))
                        todo = exes[1:] if len(exes) > 1 else []
                    else:
                        todo = exes[:1]
                    hit = None
                    for exe, flags in todo:
                        code, text = self._run_native(exe, d["fn"], d["args"], c["bytes"])
                        if code == "timeout":
                            hit = "does not terminate (30 s)"
                        elif code == 3:
                            hit = next((l for l in text.splitlines() if l.startswith("CHECK-FAILED")), "check failed")
                        elif code not in (0, 4, 2):
                            hit = next((l for l in text.splitlines() if "ERROR" in l or "runtime error" in l), "ended with code %s" % code)
                        if hit:
                            break
                    if hit:
                        self._confirm(d, c, hit, src, flags, units)
                        break
                else:
                    with self.lock:
                        self.res.unreproduced.append({"label": d["label"], "fn": d["fn"], "args": d["args"], "kind": c["kind"], "msg": c["msg"], "bytes": c["bytes"]})
                if self.stop.is_set():
                    return

    def _confirm(self, d, c, hit, src, flags, units):
        for k in self.known:
            if k in ("%s | %s" % (d["label"], hit)):
                with self.lock:
                    self.known_hits.append((k, d["label"], hit))
                return
        rdir = os.path.join(VERIF, "replays", self.prop)
        os.makedirs(rdir, exist_ok=True)
        name = hashlib.sha1(("%s%s%s%s" % (d["label"], d["fn"], d["args"], c["bytes"])).encode()).hexdigest()[:10]
        path = os.path.join(rdir, name + ".sh")
        unit = [u for u in units if any(f == d["fn"] for f, _ in u.jobs)]
        use = None
        if unit and unit[0].probes:
            agrees, use, verdict = self._probe_agrees(unit[0], c["bytes"], rdir, name)
            if not agrees:
                with self.lock:
                    self.res.inconclusive.append((d["label"], d["fn"], d["args"], "the compilers disagree on this use"))
                return
            hit = "%s: %s: %s" % (hit, os.path.basename(use), "compiles" if verdict else "does not compile")
        open(os.path.join(rdir, name + ".cpp"), "w").write(self._source(unit or units))
        data = " ".join(str(b) for b in c["bytes"])
        with open(path, "w") as f:
            f.write("#!/bin/bash\n# property %s: %s\n# harness %s, arguments %s, input bytes [%s]\n# solver: %s: %s\n# native: %s\n"
                    % (self.prop, d["label"].replace("\n", " "), d["fn"], d["args"], data, c["kind"], c["msg"].replace("\n", " ")[:500], hit.replace("\n", " ")))
            f.write('d=$(dirname "$(realpath "$0")")\nt=$(mktemp -d)\ntrap \'rm -rf "$t"\' EXIT\n')
            fl = " ".join("'%s'" % x for x in flags)
            if use:
                f.write("# the use in question: it %s\n" % ("compiles although it has no meaning" if verdict else "does not compile although it has a meaning"))
                f.write("%s -fsyntax-only \"$d/%s\"\n[ $? %s 0 ] && { echo 'CHECK-FAILED'; exit 3; }\nexit 0\n" % (" ".join("'%s'" % x for x in NATIVE_GCC), os.path.basename(use), "=" if verdict else "!="))
            f.write("%s \"$d/%s.cpp\" '%s' -o \"$t/replay\" || exit 2\n" % (fl, name, os.path.join(HARNESS, "native.cpp")))
            f.write("ASAN_OPTIONS=detect_leaks=0 timeout 30 \"$t/replay\" %s %d %s %s\n" % (d["fn"], len(d["args"]), " ".join(str(x) for x in d["args"]), data))
        os.chmod(path, 0o755)
        with self.lock:
            self.res.violations.append({"label": d["label"], "fn": d["fn"], "args": d["args"], "bytes": c["bytes"], "kind": c["kind"], "msg": c["msg"], "native": hit, "replay": path})
            if len(self.res.violations) >= 3:
                self.stop.set()
        self.stop.set()

    def _compile_failure(self, unit, src, err):
        """The public API does not compile for this pattern. A violation only if gcc (the repository's compiler)
        rejects it as well while a trivial use of the library compiles."""
        can = os.path.join(self.tmp, "canary.cpp")
        with self.lock:
            if not os.path.exists(can):
                open(can, "w").write('#include <mregex.hpp>\nint main(){return meta::regex<"a">::match("a")?0:1;}\n')
        rc, cerr = self._compile(can, os.path.join(self.tmp, "canary%d.o" % threading.get_ident()), NATIVE_GCC, ["-c"])
        if rc:
            with self.lock:
                self.res.errors.append("the library does not compile: " + cerr[:1500])
            self.stop.set()
            return
        rc, gerr = self._compile(src, src + ".o", NATIVE_GCC, ["-c"])
        if rc == 0:
            with self.lock:
                self.res.inconclusive.append((unit.label, "-", [], "clang does not compile this unit: " + err[:300]))
            return
        rdir = os.path.join(VERIF, "replays", self.prop)
        os.makedirs(rdir, exist_ok=True)
        name = "compile-" + hashlib.sha1(unit.label.encode()).hexdigest()[:10]
        shutil.copy(src, os.path.join(rdir, name + ".cpp"))
        path = os.path.join(rdir, name + ".sh")
        with open(path, "w") as f:
            f.write("#!/bin/bash\n# property %s: %s does not compile\n" % (self.prop, unit.label.replace("\n", " ")))
            f.write(" ".join("'%s'" % x for x in NATIVE_GCC) + ' -c "$(dirname "$(realpath "$0")")/%s.cpp" -o /dev/null\n' % name)
        os.chmod(path, 0o755)
        first = next((l for l in gerr.splitlines() if "error" in l), "does not compile")
        for k in self.known:
            if k in ("%s | %s" % (unit.label, first)):
                with self.lock:
                    self.known_hits.append((k, unit.label, first))
                return
        with self.lock:
            self.res.violations.append({"label": unit.label, "fn": "-", "args": [], "bytes": [], "kind": "compile", "msg": first, "native": first, "replay": path})
        self.stop.set()

    def _validate(self, base, src, recs):
        """Replays inputs of completed (passing) paths natively: the encoding and the real code must agree."""
        todo = [(d, w) for d in recs if "fn" in d and not d.get("cex") for w in d.get("witness", [])]
        if not todo:
            return
        if not os.path.exists(base + ".san"):
            rc, err = self._compile(src, base + ".san", NATIVE, [os.path.join(HARNESS, "native.cpp")])
            if rc:
                return
        step = max(1, len(todo) // 60)
        for d, w in todo[::step]:
            code, text = self._run_native(base + ".san", d["fn"], d["args"], w, 20)
            with self.lock:
                self.res.validated += 1
                if code != 0 or "PASSED" not in text:
                    self.res.validation_failures.append({"label": d["label"], "fn": d["fn"], "args": d["args"], "bytes": w, "code": code, "out": text[-300:]})

    # -- all ---------------------------------------------------------------------------------
    def run(self, units):
        probed = [u for u in units if u.probes]
        if probed and not self._probe(probed):
            shutil.rmtree(self.tmp, ignore_errors=True)
            return self.res
        groups, cur, w = [], [], 0.0
        for u in units:
            if u.solo:
                groups.append([u])
                continue
            cur.append(u); w += u.weight
            if w >= self.tu_weight:
                groups.append(cur); cur, w = [], 0.0
        if cur:
            groups.append(cur)
        groups.sort(key=lambda g: -sum(u.weight for u in g))
        vstep = max(1, len(groups) // max(1, self.witness_tus))
        try:
            with cf.ThreadPoolExecutor(max_workers=self.nproc + 1) as ex, cf.ThreadPoolExecutor(max_workers=1) as ee:
                self.pch = ex.submit(self._build_pch)
                self.engine = ee.submit(self._build_engine)
                futs = [ex.submit(self._tu, k, g, self.witness_tus > 0 and k % vstep == 0 and k // vstep < self.witness_tus) for k, g in enumerate(groups)]
                for f in cf.as_completed(futs):
                    f.result()
        finally:
            shutil.rmtree(self.tmp, ignore_errors=True)
        return self.res

"""Shared machinery: build /repo's current tree, run a recorder driver, validate what it
recorded with TLC, write evidence, print the verdict.

Exit status: 0 held, 1 violated (with a VIOLATION line), 2 the check itself failed."""
import concurrent.futures, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
DRV = os.path.join(VERIF, "drivers")
TLA = "/opt/veriftools/tla/"
CP = TLA + "tla2tools.jar:" + TLA + "CommunityModules-deps.jar"
EXTS = {".c", ".cc", ".cpp", ".h", ".hpp", ".inc", ".txt", ".dat", ".htm", ".hdr"}
NCPU = min(8, os.cpu_count() or 4)
LINE_OUT = sys.stdout


class CheckError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.work = os.path.join(VERIF, ".work", "%s-%s-%d" % (pid, tier, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.src = {}
        self.states = self.transitions = self.traces = 0
        self.model_states = self.model_transitions = 0
        self.samples, self.notes, self.assumptions = [], [], []
        self.rejects = []          # (stage name, record, tlc text)
        self.extra = {}
        self.known = load_known(pid)
        self.cp = CP
        self.bg, self.pool = [], concurrent.futures.ThreadPoolExecutor(3)

    quick = property(lambda s: s.tier == "quick")

    # ---------------------------------------------------------------- building
    def build(self, san=False, targets=("liblunar.a",), tag=None, flags=""):
        """A mirror of /repo's working tree, built by its own makefile."""
        key = tag or ("san" if san else "opt")
        if key in self.src:
            return self.src[key]
        d = os.path.join(self.work, "src-" + key)
        os.makedirs(d)
        for root, dirs, files in os.walk(REPO):
            dirs[:] = [x for x in dirs if x not in (".git", ".github", "_build")]
            for f in files:
                if os.path.splitext(f)[1] in EXTS or f.lower() == "makefile":
                    rel = os.path.relpath(os.path.join(root, f), REPO)
                    os.makedirs(os.path.dirname(os.path.join(d, rel)), exist_ok=True)
                    shutil.copyfile(os.path.join(root, f), os.path.join(d, rel))
        fl = ("-O1 -g -w -U_FORTIFY_SOURCE -fsanitize=address -fno-omit-frame-pointer" if san else "-O2 -w") + " " + flags
        env = dict(os.environ)
        for v in ("MAKEFLAGS", "CFLAGS", "CXXFLAGS", "LDFLAGS", "OS", "SHARED", "DEBUG"):
            env.pop(v, None)
        r = subprocess.run(["make", "-j%d" % NCPU, "CC=gcc", "CXX=g++", "CXXFLAGS=" + fl, "CFLAGS=" + fl] +
                           list(targets), cwd=d, env=env, capture_output=True, text=True, timeout=600)
        if r.returncode:
            raise CheckError("building /repo failed:\n" + (r.stdout + r.stderr)[-3000:])
        self.src[key] = d
        return d

    def driver(self, name, san=False, extra="", srcs=()):
        d = self.build(san)
        exe = os.path.join(self.work, name + ("-san" if san else ""))
        fl = ["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer"] if san else ["-O2"]
        cmd = (["g++", "-std=c++17", "-w", "-U_FORTIFY_SOURCE"] + fl + extra.split() + ["-I", d, "-I", DRV, "-o", exe,
               os.path.join(DRV, name + ".cpp")] + [os.path.join(d, s) for s in srcs] +
               [os.path.join(d, "liblunar.a"), "-lm"])
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=600)
        if r.returncode:
            raise CheckError("driver %s does not build:\n%s" % (name, r.stderr[-3000:]))
        return exe

    # ---------------------------------------------------------------- recording
    def record(self, exe, args=(), name="trace", stdin=None, timeout=None, cwd=None):
        """Runs a driver; returns the path of the ndjson it wrote.  A death of the driver is
        itself an event ("Crash"/"Hang") carrying the case in flight."""
        out = os.path.join(self.work, name + ".ndjson")
        infl = os.path.join(self.work, name + ".inflight")
        open(infl, "w").close()
        env = dict(os.environ, VERIF_OUT=out, VERIF_INFLIGHT=infl, VERIF_SEED=str(self.seed), VERIF_TMP=self.work,
                   ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=97:allocator_may_return_null=1:strict_memcmp=0",
                   LC_ALL="C", TZ="UTC")
        how = None
        timeout = timeout or (60 if self.quick else 600)
        try:
            r = subprocess.run([exe] + [str(a) for a in args], env=env, stdin=stdin or subprocess.DEVNULL,
                               capture_output=True, timeout=timeout, cwd=cwd or self.work)
            if r.returncode == 3:
                raise CheckError("driver %s: %s" % (exe, r.stderr.decode(errors="replace")[-2000:]))
            if r.returncode != 0:
                how = "Crash"
                err = r.stderr.decode(errors="replace")
                m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
                why = m.group(1) if m else ("status %d" % r.returncode)
                log(err[-1500:])
        except subprocess.TimeoutExpired:
            how, why = "Hang", "timeout"
        if how:
            raw = open(out, "rb").read() if os.path.exists(out) else b""
            raw = raw[: raw.rfind(b"\n") + 1]
            case = open(infl, "rb").read().split(b"\0")[0].decode("latin1")
            rec = json.dumps({"op": how, "why": why, "case": case})
            with open(out, "wb") as f:
                f.write(raw)
            self.rejects.append((name, json.loads(rec), "the code under test died: %s" % why))
        return out

    # ---------------------------------------------------------------- TLC
    def reals(self):
        """Module Dec's operators, compiled for TLC."""
        d = os.path.join(self.work, "dec")
        r = subprocess.run(["javac", "-cp", CP, "-d", d, os.path.join(SPEC, "java", "Dec.java")], capture_output=True, text=True)
        if r.returncode != 0:
            raise CheckError("javac: " + r.stderr[-1000:])
        self.cp = d + ":" + CP

    def tlc(self, module, cfg=None, env=None, args=(), tag="", timeout=800, workers=1, mem="3g", deadlock=False):
        meta = os.path.join(self.work, "meta-" + module + tag)
        os.makedirs(meta, exist_ok=True)
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss16m", "-cp", self.cp,
               "tlc2.TLC", "-config", os.path.join(SPEC, (cfg or module) + ".cfg"), "-workers", str(workers),
               "-metadir", meta, "-noGenerateSpecTE"] + ([] if deadlock else ["-deadlock"]) + list(args) + [module + ".tla"]
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        e["JAVA_TOOL_OPTIONS"] = ""
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout, errors="replace")
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s%s" % (module, tag))
        shutil.rmtree(meta, ignore_errors=True)
        return r

    @staticmethod
    def tlc_stats(text):
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", text)
        if m:
            return int(m[-1][0]), int(m[-1][1])
        m = re.findall(r"The number of states generated: (\d+)", text)
        return (int(m[-1]), 0) if m else (0, 0)

    def model(self, *a, **k):
        """Starts design-level model checking in the background; join() waits for it."""
        self.bg.append(self.pool.submit(self.model_now, *a, **k))

    def join(self):
        for f in self.bg:
            f.result()
        self.bg = []

    def model_now(self, module, cfg=None, env=None, tag="", workers=4, timeout=800, args=(), **kw):
        """Design-level model checking: the specification's own invariants."""
        r = self.tlc(module, cfg, env, tag="-model" + tag, workers=workers, timeout=timeout, args=args, **kw)
        if r.returncode != 0:
            raise CheckError("model %s %s does not check:\n%s" % (module, cfg or "", r.stdout[-4000:] + r.stderr[-1000:]))
        g, d = self.tlc_stats(r.stdout)
        if g == 0:
            raise CheckError("model %s explored nothing" % module)
        self.model_states += d
        self.model_transitions += g
        return r.stdout

    def split(self, path, shards, boundary=None, minlines=200):
        """Splits a trace; with `boundary`, only before lines that contain it."""
        lines = open(path, "rb").read().splitlines()
        if not lines:
            return []
        if boundary:
            b = boundary.encode()
            groups, cur = [], []
            for ln in lines:
                if b in ln and cur:
                    groups.append(cur)
                    cur = []
                cur.append(ln)
            groups.append(cur)
        else:
            groups = [[ln] for ln in lines]
        k = max(1, min(shards, len(lines) // minlines))
        per = -(-sum(map(len, groups)) // k)
        out, cur = [], []
        for g in groups:
            cur.extend(g)
            if len(cur) >= per:
                out.append(cur)
                cur = []
        if cur:
            out.append(cur)
        paths = []
        for n, o in enumerate(out):
            p = "%s.s%03d" % (path, n)
            with open(p, "wb") as f:
                f.write(b"\n".join(o) + b"\n")
            paths.append((p, o))
        return paths

    def validate(self, path, module, boundary=None, shards=None, env=None, cfg=None, name=None, per_shard=20000,
                 timeout=800, need=1, mem="3g"):
        """Trace validation of a recorded file.  The module walks the records one by one (one state per
        record), prints <<"REJECT", i, ...>> for a record the specification does not allow, and its
        postcondition demands that every record was consumed."""
        n = sum(1 for _ in open(path, "rb")) if os.path.exists(path) else 0
        if n < need:
            if self.rejects:       # the driver died before: already a rejection
                return 0
            raise CheckError("%s: only %d records" % (path, n))
        sh = self.split(path, shards or max(NCPU, -(-n // per_shard)), boundary)
        name = name or os.path.basename(path)

        def one(k):
            p, o = sh[k]
            e = {"TRACE": p}
            e.update(env or {})
            return self.tlc(module, cfg, e, tag="-%s-%d" % (name, k), timeout=timeout, mem=mem)
        done = 0
        with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
            for k, r in enumerate(ex.map(one, range(len(sh)))):
                p, o = sh[k]
                g, d = self.tlc_stats(r.stdout)
                rej = re.findall(r'^<<"REJECT", (\d+)(.*?)>>$', r.stdout, re.M | re.S) if "REJECT" in r.stdout else []
                rej = re.findall(r'<<\s*"REJECT",\s*(\d+)([^\n]*(?:\n(?!<<|Model|Finished|Progress)[^\n]*)*)', r.stdout)
                for num, rest in rej:
                    rec = json.loads(o[int(num) - 1])
                    m = re.match(r',\s*"KNOWN ([\w-]+)"', rest)     # a deviation the specification names
                    if m:
                        rec["known"] = m.group(1)
                    self.rejects.append((name, rec, rest.strip()[:1500]))
                if r.returncode != 0 or d != len(o) + 1:
                    raise CheckError("TLC failed on %s shard %d (rc %d, %d states for %d records):\n%s" %
                                     (name, k, r.returncode, d, len(o), r.stdout[-3500:] + r.stderr[-800:]))
                self.states += d
                self.transitions += g
                self.traces += (sum(1 for x in o if boundary.encode() in x) if boundary else len(o))
                done += len(o)
        ls = [l for p, o in sh for l in o]
        for l in (ls[0], ls[len(ls) // 2], ls[-1]):
            self.samples.append({"trace": name, "record": json.loads(l) if len(l) < 1500 else l[:1500].decode("latin1")})
        return done

    # ---------------------------------------------------------------- verdict
    def finish(self, rerun=None):
        known_hits, fresh = [], []
        for st, rec, why in self.rejects:
            k = next((k for k in self.known if match_known(k, rec)), None)
            (known_hits if k else fresh).append((st, rec, why, k))
        wall = time.time() - self.t0
        cov = {"states": self.states + self.model_states, "transitions": self.transitions + self.model_transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples[:12],
               "model_states": self.model_states, "trace_states": self.states}
        cov.update(self.extra)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump({"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
                       "coverage": cov, "assumptions": self.assumptions, "wall_s": round(wall, 2),
                       "violations": len(fresh)}, f, indent=1)
        seen = set()
        for st, rec, why, k in known_hits:
            if k["what"] not in seen:
                seen.add(k["what"])
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        if not fresh:
            print("OK property=%s states=%d traces=%d wall=%.1fs" % (self.pid, cov["states"], self.traces, wall))
            return 0
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        p = os.path.join(rd, "%s.ndjson" % self.pid)
        with open(p, "w") as f:
            for st, rec, why, k in fresh[:200]:
                f.write(json.dumps({"stage": st, "record": rec, "why": why}) + "\n")
        for st, rec, why, k in fresh[:5]:
            log("rejected [%s] %s\n   %s" % (st, json.dumps(rec)[:600], why[:600]))
        print("%d rejected records" % len(fresh))
        print("VIOLATION property=%s replay=%s" % (self.pid, p))
        return 1


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for ln in open(p):
            if ln.strip():
                k = json.loads(ln)
                if k.get("property") == pid and k.get("status") == "known":
                    out.append(k)
    return out


def match_known(k, rec):
    return all(rec.get(f) == v for f, v in k["match"].items()) and bool(k["match"])

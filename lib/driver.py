#!/usr/bin/env python3
"""Runs one property's check: TLC design models + conformance of the real code.

usage: driver.py PROPERTY [quick|thorough]

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.
Exit 2: error of the check itself (compile failure, TLC failure, flaky result).
"""
import concurrent.futures as cf
import json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = max(1, min(8, os.cpu_count() or 8))

CXX = "/usr/bin/clang++-18"
BASEFLAGS = ["-stdlib=libc++", "-std=c++17", "-W", "-Wall", "-Wno-unused-function",
             "-Wno-unused-variable", "-Wno-unused-parameter", "-Wno-unused-private-field", "-Wno-sign-compare", "-O2",
             "-fno-exceptions", "-fno-rtti", "-ffast-math", "-ftree-vectorize"]
FLAVOURS = {
    "avx2": ["-march=x86-64-v3"],
    "sse4": ["-march=x86-64-v2"],
    "gen": ["-march=x86-64"],
    # the NEON code with stand-ins for the intrinsics
    "neon": ["-march=x86-64", "-DVT_NEON=32", "-I" + os.path.join(HARN, "neon")],
    "neon64": ["-march=x86-64", "-DVT_NEON=64", "-I" + os.path.join(HARN, "neon")],
}


class CheckError(Exception):
    pass


class NotCompiling(Exception):
    """the harness compiles against the original code, not against this one"""


def tail(s, n=3000):
    k = s.find("\nError:")
    if k > 0:
        s = s[k + 1:]
    return s if len(s) <= n else s[:n // 2] + "\n...\n" + s[-n // 2:]


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.t0 = time.time()
        self.states = self.transitions = self.sessions = self.events = self.replayed = self.same = 0
        self.kinds = {}
        self.models = []
        self.samples = []
        self.lock = threading.Lock()
        self.known = []
        self.pool = cf.ThreadPoolExecutor(NCPU)

    def note(self, what):
        if os.environ.get("VERIF_DEBUG"):
            print("[%6.1f] %s" % (time.time() - self.t0, what), file=sys.stderr)

    def path(self, *a):
        return os.path.join(self.work, *a)

    # ---- building -------------------------------------------------------
    def compile(self, src, flavour, defs=()):
        out = self.path("%s.%s.%s" % (os.path.basename(src), flavour,
                                      abs(hash(tuple(defs))) % 100000))
        cmd = [CXX] + BASEFLAGS + FLAVOURS[flavour] + list(defs)
        cmd += ["-I" + HARN, "-I" + REPO, os.path.join(HARN, src), "-o", out]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            # the toolchain works, so it is the code that cannot be used this way any more
            probe = self.path("probe-%s.cc" % os.path.basename(out))
            with open(probe, "w") as f:
                f.write('#include "trace.hh"\nint main(int c, char **v) { vt_init(c, v); return vt_done(); }\n')
            q = subprocess.run([CXX] + BASEFLAGS + FLAVOURS[flavour] + ["-I" + HARN, probe, "-o", out],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            err = [x for x in p.stdout.splitlines() if "error:" in x]
            if q.returncode or p.returncode < 0 or not err:
                raise CheckError("compiling %s (%s) failed:\n%s" % (src, flavour, tail(p.stdout)))
            raise NotCompiling("%s [%s]" % (src, flavour), "\n".join(err[:10]))
        return out

    def build(self, job):
        """compile a harness; without some inner parts of the code where they are gone"""
        h, fl = job
        try:
            return self.compile(h["src"], fl, h.get("defs", ()))
        except NotCompiling as x:
            for more in h.get("fallbacks", ()):
                try:
                    out = self.compile(h["src"], fl, list(h.get("defs", ())) + more)
                    self.note("%s: compiled with %s only" % (h["src"], " ".join(more)))
                    return out
                except NotCompiling:
                    pass
            raise x

    def harness(self, binary, out, args=(), extra_env=None, timeout=None):
        """returns (ok, crash message)"""
        env = dict(os.environ, VERIF_SEED=str(self.seed), VERIF_TIER=self.tier)
        if extra_env:
            env.update(extra_env)
        lim = timeout or (400 if self.tier == "quick" else 2500)
        # no single call may take longer than this
        env["VERIF_ALARM"] = "60" if self.tier == "quick" else "600"
        try:
            p = subprocess.run([binary, out] + [str(a) for a in args], env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=lim + 30, cwd=self.work)
        except subprocess.TimeoutExpired:
            return False, "did not finish within %d s" % (lim + 30)
        txt = p.stdout.decode("utf-8", "replace")
        if p.returncode == 0:
            return True, txt
        if p.returncode == 3:      # the harness itself is unusable
            raise CheckError("harness error: " + tail(txt))
        return False, "exit status %d: %s" % (p.returncode, tail(txt))

    # ---- TLC ------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=1, heap="3g", timeout=None, extra=(), stack="256m"):
        n = self.path("tlc-%d-%d" % (threading.get_ident() % 100000, time.time_ns() % 10**12))
        os.makedirs(n)
        cfgf = os.path.join(n, module + ".cfg")
        with open(cfgf, "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        if env:
            e.update(env)
        gc = ["-XX:+UseParallelGC", "-XX:ParallelGCThreads=2"] if workers == 1 else ["-XX:+UseParallelGC"]
        cmd = ["java"] + gc + ["-Xmx" + heap, "-Xss" + stack, "-Djava.io.tmpdir=" + n,
               "-XX:-UsePerfData", "-cp", TLAJARS, "tlc2.TLC", "-noGenerateSpecTE",
               "-metadir", os.path.join(n, "m"), "-workers", str(workers), "-config", cfgf,
               "-fpmem", "0.1" if workers == 1 else "0.25"] + list(extra)
        cmd.append(os.path.join(SPEC, module + ".tla"))
        lim = timeout or (700 if self.tier == "quick" else 6000)
        try:
            p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=lim, cwd=n)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC on %s exceeded %d s" % (module, lim))
        out = p.stdout.decode("utf-8", "replace")
        shutil.rmtree(n, ignore_errors=True)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", "").replace(" states generated ", " states generated, "))
        gen = dist = 0
        if m:
            gen, dist = int(m[-1][0]), int(m[-1][1])
        return p.returncode, out, gen, dist

    def model(self, module, cfg, min_states=2, heap="6g", workers=2):
        rc, out, gen, dist = self.tlc(module, cfg, workers=workers, heap=heap)
        if rc != 0 or "No error has been found" not in out:
            raise CheckError("design model %s failed (rc %d):\n%s" % (module, rc, tail(out, 6000)))
        if dist < min_states:
            raise CheckError("design model %s explored only %d states" % (module, dist))
        with self.lock:
            self.states += dist
            self.transitions += gen
            self.models.append({"module": module, "distinct_states": dist, "states_generated": gen})

    def generate(self, module, cfg, outfile, env=None, heap="6g"):
        """TLC as a generator: the module writes outfile (IOEnv.OUT)."""
        e = dict(env or {}, OUT=outfile)
        rc, out, gen, dist = self.tlc(module, cfg, env=e, heap=heap)
        if rc != 0 or not os.path.exists(outfile):
            raise CheckError("generator %s failed (rc %d):\n%s" % (module, rc, tail(out, 6000)))
        with self.lock:
            self.states += dist
            self.transitions += gen

    # ---- trace validation ----------------------------------------------
    def split(self, files):
        """read harness outputs; return list of sessions (list of lines)"""
        sess = []
        for fn, tag in files:
            cur = None
            with open(fn) as f:
                for line in f:
                    if not line.strip():
                        continue
                    if line.startswith('{"e":"Begin"'):
                        cur = (tag, [])
                        sess.append(cur)
                    if cur is None:
                        raise CheckError("trace %s does not start with Begin" % fn)
                    cur[1].append(line)
        return sess

    def validate(self, module, sessions, cfg=None, nshards=None, heap="3g"):
        """returns None or (tag, lines up to the rejected event)"""
        cfg = cfg or "SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n"
        nshards = nshards or NCPU
        nshards = max(1, min(nshards, len(sessions)))
        shards = [[] for _ in range(nshards)]
        load = [0] * nshards

        def weight(s):
            m = re.search(r'"w":(\d+)', s[1][0])
            return int(m.group(1)) if m else sum(len(x) for x in s[1])
        for s in sorted(sessions, key=weight, reverse=True):
            i = load.index(min(load))
            shards[i].append(s)
            load[i] += weight(s) + 1

        def one(k):
            if not shards[k]:
                return None
            fn = self.path("shard-%s-%d-%d.ndjson" % (module, k, time.time_ns()))
            lines = []
            own = []
            for s in shards[k]:
                for j, x in enumerate(s[1]):
                    lines.append(x)
                    own.append((s, j))
            with open(fn, "w") as f:
                f.writelines(lines)
            rc, out, gen, dist = self.tlc(module, cfg, env={"TRACE": fn}, heap=heap)
            if rc and "StackOverflow" in out:
                rc, out, gen, dist = self.tlc(module, cfg, env={"TRACE": fn}, heap=heap, stack="1000m")
            self.note("%s shard %d: %d events" % (module, k, len(lines)))
            os.unlink(fn)
            m = re.search(r'<<"REJECT", (\d+)>>', out)
            if rc == 0 and not m:
                if dist != len(lines) + 1:
                    raise CheckError("%s: %d states for %d events\n%s" % (module, dist, len(lines), tail(out)))
                with self.lock:
                    self.states += dist
                    self.transitions += gen
                    for x in lines:
                        kk = re.match(r'\{"e":"(\w+)"', x)
                        self.kinds[kk.group(1)] = self.kinds.get(kk.group(1), 0) + 1
                    self.events += len(lines)
                    self.sessions += len(shards[k])
                    for km in set(re.findall(r'<<"KNOWN", "([^"]*)">>', out)):
                        if km not in self.known:
                            self.known.append(km)
                return None
            # values for which the specification has no meaning at all
            bad = rc in (75, 76) and not m and "StackOverflow" not in out and "OutOfMemory" not in out
            if bad:
                m = re.findall(r"^(?:/\\ )?l = (\d+)$", out, re.M)
                m = m and re.match(r"(\d+)", m[-1])
            if m:
                at = int(m.group(1)) - 1          # index of the rejected line
                if at >= len(own):
                    raise CheckError("%s: reject index out of range\n%s" % (module, tail(out)))
                s, j = own[at]
                return (s[0], s[1][:j + 1])
            raise CheckError("TLC on %s failed (rc %d):\n%s" % (module, rc, tail(out, 6000)))

        futs = [self.pool.submit(one, k) for k in range(nshards)]
        rej, err = None, None
        for f in futs:
            try:
                r = f.result()
                rej = rej or r
            except CheckError as x:
                err = err or x
        if rej:
            return rej
        if err:
            raise err
        return None

    def violation(self, what, lines):
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, self.prop + ".ndjson")
        with open(rp, "w") as f:
            f.writelines(lines)
        last = lines[-1].strip() if lines else ""
        print("%s: %s" % (self.prop, what))
        print("rejected event: " + (last if len(last) < 2000 else last[:2000] + "..."))
        self.evidence(1)
        print("VIOLATION property=%s replay=%s" % (self.prop, rp))
        sys.stdout.flush()
        return 1

    def evidence(self, violations):
        import checks
        c = checks.CHECKS[self.prop]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed,
            "level": c.get("level", "model_checking"),
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.sessions + self.replayed,
                "sessions_recorded_identically_by_other_builds": self.same,
                "events_by_action": self.kinds,
                "design_models": self.models,
                "samples": self.samples,
            },
            "assumptions": c.get("assumptions", []),
            "wall_s": round(time.time() - self.t0, 2),
            "violations": violations,
        }
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    # ---- one check ------------------------------------------------------
    def run(self):
        import checks
        c = checks.CHECKS[self.prop]
        thorough = self.tier == "thorough"
        bg = cf.ThreadPoolExecutor(2)
        mfuts = []
        for m in c.get("models", ()):
            if m.get("tier") == "thorough" and not thorough:
                continue
            cfg = m.get("cfg_thorough", m["cfg"]) if thorough else m["cfg"]
            mfuts.append(bg.submit(self.model, m["module"], cfg, m.get("min_states", 2)))
        # generated tables/behaviours for the harness
        gens = {}
        for g in c.get("generators", ()):
            cfg = g.get("cfg", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n")
            fn = self.path(g["name"] + ".txt")
            gens[g["name"]] = (fn, bg.submit(self.generate, g["module"], cfg, fn, g.get("env")))
        jobs = []
        for h in c.get("harnesses", ()):
            if h.get("tier") == "thorough" and not thorough:
                continue
            for fl in h.get("flavours", ("avx2",)):
                jobs.append((h, fl))
        try:
            bins = list(self.pool.map(self.build, jobs))
        except NotCompiling as x:
            return self.violation("the code does not compile in " + x.args[0],
                                  [json.dumps({"e": "Compile", "harness": x.args[0], "detail": x.args[1]}) + "\n"])
        for n, (fn, fut) in gens.items():
            fut.result()
        self.note("compiled")
        genv = {"GEN_" + n: fn for n, (fn, _) in gens.items()}

        def exec_one(i, again=""):
            h, fl = jobs[i]
            out = self.path("trace-%d%s.ndjson" % (i, again))
            ok, msg = self.harness(bins[i], out, h.get("args", ()),
                                   dict(genv, VERIF_FLAVOUR=fl))
            return ok, msg, out
        results = list(self.pool.map(exec_one, range(len(jobs))))
        for i, (ok, msg, out) in enumerate(results):
            if not ok:
                ok2, msg2, _ = exec_one(i, "r")
                if ok2:
                    raise CheckError("harness failure not repeatable: " + msg)
                name = "%s [%s]" % (jobs[i][0]["src"], jobs[i][1])
                lines = [json.dumps({"e": "Crash", "harness": name, "detail": msg}) + "\n"]
                return self.violation("the code crashed, hung, aborted or mismatched in " + name, lines)
            m = re.findall(r"^REPLAYED (\d+)", msg, re.M)
            self.replayed += sum(int(x) for x in m)
            for s in re.findall(r"^SAMPLE (.*)", msg, re.M)[:2]:
                if len(self.samples) < 6:
                    self.samples.append(s[:400])
        self.note("harnesses ran")
        bymod = {}
        for (h, fl), (ok, msg, out) in zip(jobs, results):
            if h.get("module"):
                bymod.setdefault(h["module"], []).append((out, fl))
        for mod, files in bymod.items():
            sess = self.split(files)
            if not sess:
                raise CheckError("no sessions recorded for " + mod)
            for tag, ls in (sess[0], sess[len(sess) // 2], sess[-1]):
                if len(self.samples) < 8:
                    self.samples.append({"flavour": tag, "events": [x.strip()[:300] for x in ls[:2]]})
            # builds that recorded the same session: validated once
            uniq = {}
            for s in sess:
                uniq.setdefault("".join(s[1]), s)
            self.same += len(sess) - len(uniq)
            rej = self.validate(mod, list(uniq.values()))
            if rej:
                # believe it only if the specification rejects the same events
                # again; the harness is deterministic, so code that behaves
                # differently the second time has read something uninitialised
                rej2 = self.validate(mod, [(rej[0], rej[1])])
                if not rej2:
                    raise CheckError("%s: rejection not repeatable by TLC" % mod)
                files2 = []
                for i, (h, fl) in enumerate(jobs):
                    if h.get("module") == mod and fl == rej[0]:
                        ok, msg, out = exec_one(i, "r")
                        if not ok:
                            return self.violation("specification %s rejects the recorded behaviour (%s build)" % (mod, rej[0]), rej[1])
                        files2.append((out, fl))
                rej3 = self.validate(mod, self.split(files2))
                if not rej3:
                    print("%s: a second run of the code behaved differently" % mod)
                return self.violation("specification %s rejects the recorded behaviour (%s build)" % (mod, rej[0]), rej[1])
        self.note("validated")
        for f in mfuts:
            f.result()
        self.note("models checked")
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        self.evidence(0)
        print("%s ok: %d sessions (%d more recorded identically), %d events validated, %d cases replayed, %d states, %.1f s" % (
            self.prop, self.sessions, self.same, self.events, self.replayed, self.states, time.time() - self.t0))
        return 0


def main():
    sys.path.insert(0, HERE)
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    r = Run(prop, tier, seed)
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(2))
    try:
        rc = r.run()
    except CheckError as x:
        print("CHECK ERROR %s: %s" % (prop, x))
        rc = 2
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", r.work)
        else:
            shutil.rmtree(r.work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()

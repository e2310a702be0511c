"""Runs TLC and the replay driver; collects evidence. See DESIGN.md."""
import json, os, re, shutil, subprocess, sys, time, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
ENV = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GONOSUMDB="*", GOSUMDB="off")


class Infra(Exception):
    pass


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, frozenset, list, tuple)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    return str(v)


def cfg_text(consts, head, invariants=(), properties=(), view=None, extra=()):
    out = list(head) + ["CONSTANTS"]
    out += [" %s = %s" % (k, tla(v)) for k, v in consts.items()]
    if view:
        out.append("VIEW " + view)
    out += list(extra)
    out.append("CHECK_DEADLOCK FALSE")
    if invariants:
        out.append("INVARIANTS " + " ".join(invariants))
    if properties:
        out.append("PROPERTIES " + " ".join(properties))
    return "\n".join(out) + "\n"


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.quick = tier == "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.t0 = time.time()
        self.out = os.path.join(VERIF, "out", "%s-%s" % (prop, tier))
        shutil.rmtree(self.out, ignore_errors=True)
        os.makedirs(self.out)
        self.states = self.transitions = self.generated = 0
        self.traces = 0
        self.steps = 0
        self.runs = []          # descriptions
        self.samples = []
        self.violations = []    # (path, text)
        self.procs = []
        self.lock = threading.Lock()
        self.binary = None
        self.built = None

    # ---- building the driver from /repo ----
    def build(self, race=False):
        hdir = os.path.join(self.out, "harness")
        src = os.path.join(VERIF, "harness")
        shutil.copytree(src, hdir)
        gomod = os.path.join(hdir, "go.mod")
        txt = open(gomod).read()
        if REPO != "/repo":
            txt = txt.replace("=> /repo", "=> " + REPO)
            open(gomod, "w").write(txt)
        ov = os.path.join(self.out, "ov")
        self.instrumented = True

        def go(*a):
            return subprocess.run(["go"] + list(a), cwd=hdir, env=ENV, stdout=subprocess.PIPE,
                                  stderr=subprocess.STDOUT, text=True)
        r = go("run", "./cmd/instr", REPO, ov)
        binary = os.path.join(self.out, "qv")
        if r.returncode == 0:
            r = go("build", "-overlay", os.path.join(ov, "overlay.json"), "-o", binary, ".")
        if r.returncode != 0:
            # without schedule perturbation, then
            first = r.stdout
            self.instrumented = False
            r = go("build", "-o", binary, ".")
            if r.returncode != 0:
                raise Infra("cannot build the driver:\n" + first + r.stdout)
        self.binary = binary
        return binary

    def build_async(self):
        def run():
            try:
                self.build()
            except BaseException as e:  # noqa
                self.build_error = e
        self.build_error = None
        self.built = threading.Thread(target=run)
        self.built.start()

    def wait_build(self):
        if self.built:
            self.built.join()
            if self.build_error:
                raise self.build_error

    # ---- TLC ----
    def tlc(self, name, module, cfg, workers=4, heap="3g", timeout=600, env=None, extra=()):
        """starts TLC; returns a job whose wait() gives (ok, stats, path of its output)"""
        d = os.path.join(self.out, name)
        os.makedirs(d)
        for f in os.listdir(os.path.join(VERIF, "spec")):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(VERIF, "spec", f), d)
        open(os.path.join(d, "m.cfg"), "w").write(cfg)
        outp = os.path.join(d, "tlc.out")
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-Xss64m", "-Xmx" + heap, "-Djava.io.tmpdir=" + d, "-cp", JAR, "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(d, "st"), "-noGenerateSpecTE",
               "-config", "m.cfg"] + list(extra) + [module + ".tla"]
        f = open(outp, "w")
        p = subprocess.Popen(cmd, cwd=d, stdout=f, stderr=subprocess.STDOUT, env=dict(os.environ, **(env or {})))
        self.procs.append(p)
        return Job(self, name, p, outp, d, timeout)

    # ---- driver ----
    def drive(self, name, args, timeout, env=None):
        self.wait_build()
        outp = os.path.join(self.out, name + ".log")
        res = os.path.join(self.out, name + ".res.json")
        bad = os.path.join(self.out, name + ".bad.json")
        with open(outp, "w") as f:
            p = subprocess.Popen([self.binary] + args + ["-seed", str(self.seed), "-out", bad, "-res", res],
                                 stdout=f, stderr=subprocess.STDOUT, cwd=self.out,
                                 env=dict(os.environ, GOTRACEBACK="all", **(env or {})))
            self.procs.append(p)
            try:
                rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                p.send_signal(3)
                try:
                    p.wait(10)
                except subprocess.TimeoutExpired:
                    p.kill()
                raise Infra("driver %s: no result after %d s (see %s)" % (name, timeout, outp))
        log = open(outp).read()
        if rc == 1 and os.path.exists(bad):
            self.violation(bad, name)
        elif rc == 0 and os.path.exists(res):
            pass
        elif "panic:" in log or "fatal error:" in log or "DATA RACE" in log:
            # the process under test crashed
            self.violation(outp, name + ": the process crashed")
            return {}
        else:
            raise Infra("driver %s failed (%d):\n%s" % (name, rc, log[-3000:]))
        st = json.load(open(res)) if os.path.exists(res) else {}
        with self.lock:
            self.traces += st.get("done", 0)
            self.steps += st.get("steps", 0)
            self.runs.append(dict(st, run=name))
            if st.get("sample") is not None and len(self.samples) < 8:
                self.samples.append(st["sample"])
        return st

    def violation(self, path, text):
        with self.lock:
            self.violations.append((path, text))

    def stop(self):
        for p in self.procs:
            if p.poll() is None:
                p.kill()

    def left(self, total):
        return total - (time.time() - self.t0)

    # ---- the end ----
    def finish(self, note):
        for p, t in self.violations[:5]:
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
            print("  (%s)" % t)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "steps_validated_against_impl": self.steps,
                "behaviours_generated": self.generated,
                "runs": self.runs, "samples": self.samples or ["none"],
                "instrumented_for_schedule_perturbation": getattr(self, "instrumented", False),
            },
            "assumptions": note,
            "wall_s": round(time.time() - self.t0, 1),
            "violations": len(self.violations),
        }
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        json.dump(ev, open(os.path.join(d, self.prop + ".json"), "w"), indent=1)
        if not self.violations:
            print("OK property=%s states=%d transitions=%d traces=%d wall=%.1fs" % (
                self.prop, self.states, self.transitions, self.traces, time.time() - self.t0))
            shutil.rmtree(self.out, ignore_errors=True)
        else:
            for n in os.listdir(self.out):
                if n.endswith(".json") or n.endswith(".log") or n.endswith(".ndjson"):
                    continue
                q = os.path.join(self.out, n)
                shutil.rmtree(q, ignore_errors=True) if os.path.isdir(q) else os.remove(q)
        return 1 if self.violations else 0


class Job:
    def __init__(self, chk, name, p, outp, d, timeout):
        self.chk, self.name, self.p, self.outp, self.d, self.timeout = chk, name, p, outp, d, timeout
        self.t0 = time.time()

    def wait(self):
        try:
            rc = self.p.wait(self.timeout)
        except subprocess.TimeoutExpired:
            self.p.kill()
            raise Infra("TLC %s: no result after %d s" % (self.name, self.timeout))
        with open(self.outp, "rb") as f:
            f.seek(0, 2)
            n = f.tell()
            f.seek(max(0, n - 20000))
            tail = f.read().decode("utf8", "replace")
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", tail.replace(",", "") if False else tail)
        st = {"rc": rc, "wall_s": round(time.time() - self.t0, 1)}
        if m:
            st["transitions"], st["states"] = int(m[-1][0]), int(m[-1][1])
        m = re.search(r"depth of the complete state graph search is (\d+)", tail)
        if m:
            st["depth"] = int(m.group(1))
        st["complete"] = "No error has been found" in tail
        self.st = st
        shutil.rmtree(os.path.join(self.d, "st"), ignore_errors=True)
        return st, tail

    def must(self):
        """model checking that has to succeed: it does not depend on the code under test"""
        st, tail = self.wait()
        if not st["complete"]:
            raise Infra("TLC %s: the specification itself fails (%s):\n%s" % (self.name, self.outp, tail[-4000:]))
        c = self.chk
        with c.lock:
            c.states += st.get("states", 0)
            c.transitions += st.get("transitions", 0)
            c.runs.append(dict(st, run="tlc " + self.name))
        return st

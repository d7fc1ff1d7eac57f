"""Runner library: builds the driver from /repo's working tree, runs TLC, judges recorded traces, writes evidence."""
import itertools, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(V, "spec")
ENV = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", TZ="UTC")


class Infra(Exception):
    pass


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.work = os.path.join(V, ".work", "%s-%d" % (prop, os.getpid()))
        os.makedirs(self.work)
        self.states = self.transitions = self.traces = self.calls = 0
        self.samples, self.violations, self.notes, self.models = [], [], [], []
        self.count = itertools.count()
        self.drv = None

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

    def path(self, name):
        return os.path.join(self.work, "%03d-%s" % (next(self.count), name))

    # ---- driver ----
    def build(self, race=False):
        out = os.path.join(self.work, "drv-race" if race else "drv")
        p = subprocess.run([os.path.join(V, "tools", "build.sh"), out] + (["-race"] if race else []),
                           env=ENV, capture_output=True, text=True)
        if p.returncode:
            raise Infra("the driver does not build:\n" + p.stderr)
        if race:
            return out
        self.drv = out
        return out

    def drive(self, cmd, count=0, rows=0, seed=None, arg=None, drv=None, timeout=None, shards=8):
        timeout = timeout or (3000 if self.thorough else 240)
        if not self.drv:
            self.build()
        with ThreadPoolExecutor(shards) as ex:
            rs = list(ex.map(lambda k: self.drive1(cmd, count, rows, seed, arg, drv, timeout, k, shards), range(shards)))
        return [t for r in rs for t in r]

    def drive1(self, cmd, count, rows, seed, arg, drv, timeout, shard, shards):
        out = self.path(cmd + ".json")
        plan = {"cmd": cmd, "seed": self.seed if seed is None else seed, "count": count, "rows": rows,
                "thorough": self.thorough, "out": out, "shard": shard, "shards": shards}
        if arg is not None:
            plan["argfile"] = self.path(cmd + "-arg.json")
            with open(plan["argfile"], "w") as f:
                json.dump(arg, f)
        try:
            p = subprocess.run([drv or self.drv, json.dumps(plan)], env=ENV, capture_output=True, text=True, timeout=timeout,
                               cwd=self.work)
        except subprocess.TimeoutExpired:
            return [self.trouble(cmd, plan, "the library hangs: the driver did not end in %d s" % timeout)]
        if p.returncode == 2 and p.stderr.startswith("driver:"):
            raise Infra(p.stderr)
        if p.returncode:
            # a crash of the process that no recover can stop (stack overflow, concurrent map access, data race ...)
            return [self.trouble(cmd, plan, "the process died: " + p.stderr[:3000])]
        if p.stderr:
            self.log("driver stderr:", p.stderr[:2000])
        with open(out) as f:
            r = json.load(f)
        os.unlink(out)
        for t in (r or []):
            if isinstance(t, dict):
                t.setdefault("plan", {k: plan[k] for k in ("cmd", "seed", "count", "rows", "thorough", "shard", "shards")})
        return r or []

    def trouble(self, cmd, plan, what):
        return {"dead": what, "id": cmd, "n": 0, "cols": [], "vec": [], "info": "", "plan": plan,
                "events": [{"op": "trouble", "what": what, "flt": False}]}

    # ---- TLC ----
    def tlc(self, module, cfg, env=None, workers=8, args=(), timeout=850, heap="3g"):
        meta = self.path("meta")
        tmp = self.path("tmp")
        os.makedirs(tmp)
        e = dict(ENV, JAVA_TOOL_OPTIONS="-Xmx%s -Xss256m -XX:+UseParallelGC -Djava.io.tmpdir=%s" % (heap, tmp))
        e.update(env or {})
        cmd = ["tlc", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta, "-config", os.path.join(SPEC, cfg)]
        cmd += list(args) + [os.path.join(SPEC, module)]
        try:
            p = subprocess.run(cmd, env=e, capture_output=True, text=True, timeout=timeout, cwd=self.work)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
            shutil.rmtree(tmp, ignore_errors=True)
        out = p.stdout
        m = None
        for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct states found", out):
            pass
        if m:
            self.transitions += int(m.group(1).replace(",", ""))
            self.states += int(m.group(2).replace(",", ""))
        return p.returncode, out

    def model(self, module, cfg=None, **kw):
        """Exhaustive check of a specification: it is ours, so a failure is an error of the check."""
        t = time.time()
        s0 = self.states
        rc, out = self.tlc(module + ".tla", (cfg or module) + ".cfg", **kw)
        if rc != 0 or "No error has been found" not in out:
            raise Infra("TLC on %s/%s:\n%s" % (module, cfg, out[-4000:]))
        self.models.append({"spec": module, "config": cfg or module, "distinct_states": self.states - s0, "exhaustive": True})
        self.log("model %s: %d states, %.1f s" % (cfg or module, self.states - s0, time.time() - t))
        return out

    def validate(self, module, traces, what, cfg=None, chunk=2500000, workers=1, par=8, own=False):
        """Every trace must be a behaviour of the trace specification."""
        if not traces:
            raise Infra("no traces for " + what)
        dead = [t for t in traces if "dead" in t]
        for t in dead[:2]:  # no call ended: there is nothing to look at
            self.violation(module, cfg or module, what, t, 1, t["dead"])
        traces = [t for t in traces if "dead" not in t]
        if dead and not traces:
            return False
        t0 = time.time()
        groups, size, cur = [], 0, []
        total = 0
        sizes = []
        for t in traces:
            slim = {k: v for k, v in t.items() if k not in ("info", "plan")}
            s = json.dumps(slim, separators=(",", ":"))
            sizes.append((len(s), s, t))
            total += len(s)
        chunk = min(chunk, max(200000, total // par + 1))
        cur, size = [], 0
        for n, s, t in sizes:
            if cur and size + n > chunk:
                groups.append(cur)
                cur, size = [], 0
            cur.append((s, t))
            size += n
        if cur:
            groups.append(cur)

        # one worker: TLC's values are not safe to share between workers while they are being evaluated
        def one(g, again=True):
            f = self.path("traces.json")
            with open(f, "w") as h:
                h.write("[" + ",".join(s for s, _ in g) + "]")
            rc, out = self.tlc(module + ".tla", (cfg or module) + ".cfg", env={"TRACES": f}, workers=workers, args=())
            os.unlink(f)
            if rc != 0 and again:  # a rejection counts when it repeats on the trace alone
                tid = re.findall(r"^(?:/\\ )?tid = (\d+)", out, re.M)
                if tid and len(g) > 1:
                    k = int(tid[-1]) - 1
                    r = one([g[k]], False)
                    if r[0] != 0:
                        return r
                    rc, out, _ = one(g[:k] + g[k + 1:], True)
                    if rc == 0:
                        return rc, out, g
                    return rc, out, g[:k] + g[k + 1:]
            return rc, out, g

        bad = 0
        with ThreadPoolExecutor(par) as ex:
            for rc, out, g in ex.map(one, groups):
                if rc == 0 and "No error has been found" in out:
                    self.traces += len(g)
                    continue
                tid = re.findall(r"^(?:/\\ )?tid = (\d+)", out, re.M)
                at = re.findall(r"^(?:/\\ )?i = (\d+)", out, re.M)
                rejected = "Deadlock reached" in out or "is violated" in out
                if not rejected or not tid:
                    raise Infra("TLC on %s (%s):\n%s" % (module, what, out[:1500] + "\n...\n" + out[-5000:]))
                if own:  # files of the harness that break the format
                    raise Infra("%s (%s) rejects trace %d:\n%s" % (module, what, int(tid[-1]), (json.dump(g[int(tid[-1]) - 1][1], open("/tmp/own.json", "w")) or "/tmp/own.json") + out[-1500:]))
                bad += 1
                t = g[int(tid[-1]) - 1][1]
                why = "rejected"
                m = re.search(r"Invariant (\w+) is violated", out)
                if m:
                    why = "invariant %s is violated" % m.group(1)
                self.violation(module, cfg or module, what, t, int(at[-1]) if at else 0, why, out)
        self.samples.append({"stage": what, "spec": module, "traces": len(traces),
                             "first": self.brief(traces[0])})
        self.calls += sum(len(t.get("events") or []) for t in traces)
        self.log("%s: %d traces (%.1f MB) against %s, %d rejected, %.1f s" %
                 (what, len(traces), total / 1e6, module, bad, time.time() - t0))
        return bad == 0 and not dead

    def brief(self, t):
        b = {"id": t.get("id"), "n": t.get("n")}
        if t.get("info"):
            b["made_by"] = t["info"][:400]
        ev = t.get("events") or []
        b["events"] = [json.dumps(e)[:160] for e in ev[:6]]
        return b

    def violation(self, module, cfg, what, trace, at, why, out=""):
        d = os.path.join(V, "replays", self.prop)
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d-%d.json" % (re.sub(r"\W+", "_", what), self.seed, len(self.violations) + 1))
        ev = trace.get("events") or []
        event = ev[at - 1] if 0 < at <= len(ev) else None
        with open(p, "w") as f:
            json.dump({"property": self.prop, "stage": what, "spec": module, "config": cfg, "why": why, "event_index": at,
                       "event": event, "plan": trace.get("plan"), "trace": trace, "tlc": out[-3000:]}, f)
        self.violations.append({"stage": what, "trace": trace.get("id"), "at": at, "why": why,
                                "event": json.dumps(event)[:600], "replay": p})
        self.log("  %s: trace %s, event %d %s: %s" % (why, trace.get("id"), at, json.dumps(event)[:500], p))

    # ---- end ----
    def finish(self, level, assumptions, coverage):
        known = load_known(self.prop)
        new = []
        for v in self.violations:
            k = [f for f in known if f["match"] in (str(v["trace"]) + " " + v["event"])]
            if not k:
                new.append(v)
        for f in known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, f["what"]))
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "recorded_calls": self.calls, "models": self.models, "samples": self.samples[:12]}
        cov.update(coverage)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": len(new)}
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        with open(os.path.join(V, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        for v in new:
            print("VIOLATION property=%s replay=%s" % (self.prop, v["replay"]))
        self.log("%s: %d violations, %d states, %d transitions, %d traces" %
                 (self.prop, len(new), self.states, self.transitions, self.traces))
        return 1 if new else 0


def load_known(prop):
    out = []
    p = os.path.join(V, "known_findings.json")
    if os.path.exists(p):
        with open(p) as f:
            for e in json.load(f)["findings"]:
                if e["property"] == prop:
                    out.append(e)
    return out

"""Runs one check: build the harness, model-check the specification, run the plans on the real code,
validate every recorded event against the trace specification, report."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 8


class ToolError(Exception):
    pass


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.work = os.path.join(ROOT, "work", "%s-%s-%d" % (prop, tier, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.target = os.environ.get("DVE_TARGET") or os.path.join(ROOT, "work", "target")
        self.bin = os.path.join(self.target, "release", "dve-harness")
        self.states = self.trans = 0
        self.mc = []                # (module, generated, distinct)
        self.nplans = self.nevents = 0
        self.fails = []             # dicts
        self.samples = []
        self.notes = {}
        self.lock = threading.Lock()
        self.timeline = []

    def log(self, *a):
        s = "[%6.1fs] %s" % (time.time() - self.t0, " ".join(str(x) for x in a))
        print(s, flush=True)
        self.timeline.append(s)

    # -- build ---------------------------------------------------------------------------------
    def build(self):
        env = dict(os.environ, CARGO_TARGET_DIR=self.target, CARGO_NET_OFFLINE="true")
        env.pop("RUSTFLAGS", None)
        t = time.time()
        p = subprocess.run(["cargo", "build", "--release", "--offline", "--quiet"],
                           cwd=os.path.join(ROOT, "harness"), env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=700)
        if p.returncode != 0:
            sys.stdout.write(p.stdout[-4000:])
            raise ToolError("the harness does not build against /repo")
        self.log("harness built in %.1fs" % (time.time() - t))

    # -- TLC ------------------------------------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, workers=1, args=(), mem="2500m", timeout=600):
        """Runs TLC; returns (exit code, output, generated, distinct)."""
        md = os.path.join(self.work, "md-%s-%d-%d" % (module, threading.get_ident() % 100000, int(time.time() * 1e6) % 10 ** 9))
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss16m", "-Xmx" + mem, "-cp", JAR, "tlc2.TLC",
               "-workers", str(workers), "-metadir", md, "-noTE", "-config", cfg or module + ".cfg"]
        cmd += list(args) + [module + ".tla"]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC on %s exceeded %ds" % (module, timeout))
        finally:
            shutil.rmtree(md, ignore_errors=True)
        m = re.findall(r"^(\d+) states generated, (\d+) distinct states found", p.stdout, re.M)
        g, d = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        return p.returncode, p.stdout, g, d

    def model(self, module, cfg=None, workers=4, mem="4g", timeout=800, args=(), env=None, **consts):
        """Model checking of the specification itself; it does not involve the code.  consts: constants to change."""
        t = time.time()
        name = cfg or module + ".cfg"
        if consts:
            s = open(os.path.join(SPEC, name)).read()
            for k, v in consts.items():
                s, n = re.subn(r"(?m)^( *%s *=).*$" % k, r"\1 %s" % v, s)
                if n != 1:
                    raise ToolError("%s: no constant %s" % (name, k))
            name = "%s %s" % (name, " ".join("%s=%s" % x for x in sorted(consts.items())))
            cfg = os.path.join(self.work, "%s-%d.cfg" % (module, int(time.time() * 1e6) % 10 ** 9))
            with open(cfg, "w") as f:
                f.write(s)
        rc, out, g, d = self.tlc(module, cfg, workers=workers, mem=mem, timeout=timeout, args=args, env=env)
        if rc != 0:
            sys.stdout.write(out[-3000:])
            raise ToolError("specification %s %s does not satisfy its properties (exit %d)" % (module, name, rc))
        with self.lock:
            self.states += d
            self.trans += g
            self.mc.append({"module": module, "config": name, "generated": g, "distinct": d,
                            "seconds": round(time.time() - t, 1)})
        self.log("model %s %s: %d states, %d distinct, %.1fs" % (module, name, g, d, time.time() - t))
        return out

    # -- executions ----------------------------------------------------------------------------
    def execute(self, plans, limit=120, threads=None):
        """Runs plans on the real code; returns the recorded events grouped by plan."""
        self.nplans += len(plans)
        for i, p in enumerate(plans):
            p["id"] = i + 1
        pf = os.path.join(self.work, "plans.ndjson")
        ef = os.path.join(self.work, "events.ndjson")
        with open(pf, "w") as f:
            for p in plans:
                f.write(json.dumps(p) + "\n")
        env = dict(os.environ)
        env["RAYON_NUM_THREADS"] = "2"
        if threads:
            env["DVE_THREADS"] = str(threads)
        t = time.time()
        try:
            p = subprocess.run([self.bin, pf, ef, str(limit)], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=860)
        except subprocess.TimeoutExpired:
            raise ToolError("executions exceeded their time")
        if "DVE_TIMES" in env:
            print("\n".join(sorted(re.findall(r"^TIME (.*)", p.stdout, re.M), key=lambda x: -float(x.split()[0]))[:12]))
        if p.returncode == 97:
            m = re.search(r"^HANG (.*)", p.stdout, re.M)
            ctx = m.group(1) if m else ""
            self.fails.append({"labels": ["*:hang"], "event": {"why": "operation did not return", "context": ctx},
                               "plan": None, "line": 0})
            return []
        if p.returncode != 0:
            sys.stdout.write(p.stdout[-3000:])
            raise ToolError("harness exit %d" % p.returncode)
        groups = {}
        order = []
        cur = None
        with open(ef) as f:
            for ln in f:
                e = json.loads(ln)
                if "id" in e and e["ev"] in ("Session", "Stuck") or "pid" in e:
                    cur = e.get("pid", e.get("id"))
                    if cur not in groups:
                        groups[cur] = []
                        order.append(cur)
                groups[cur].append((ln, e))
        self.log("executed %d plans, %d events in %.1fs" % (len(plans), sum(len(g) for g in groups.values()), time.time() - t))
        return [(plans[i - 1], groups[i]) for i in order]

    def validate(self, groups, module="DVETrace", jvms=None, timeout=800, mem="2500m", env=None):
        """Every recorded event is checked by the trace specification; groups are split over several TLCs."""
        if not groups:
            return
        jvms = jvms or NCPU
        total = sum(len(ln) for _, g in groups for ln, _ in g)
        buckets = [[] for _ in range(min(jvms, len(groups)))]
        load = [0] * len(buckets)
        for pl, g in sorted(groups, key=lambda x: -sum(len(ln) for ln, _ in x[1])):
            k = load.index(min(load))
            buckets[k].append((pl, g))
            load[k] += 2000 + sum(len(ln) for ln, _ in g)
        t = time.time()

        def one(k):
            return self._validate(buckets[k], module, "%s-%d" % (module, k), timeout, mem, env)

        with cf.ThreadPoolExecutor(len(buckets)) as ex:
            for r in ex.map(one, range(len(buckets))):
                pass
        n = sum(len(g) for _, g in groups)
        self.nevents += n
        if self.samples is not None and len(self.samples) < 6:
            for pl, g in groups[:2]:
                self.samples.append({"plan": pl.get("tag", pl.get("kind")), "first_events": [e for _, e in g[:2]]})
        self.log("validated %d events of %d executions (%d bytes) in %.1fs" % (n, len(groups), total, time.time() - t))

    def _validate(self, bucket, module, name, timeout, mem, env=None, depth=0):
        tf = os.path.join(self.work, "trace-%s-%d.ndjson" % (name, depth))
        owner = []
        with open(tf, "w") as f:
            for pl, g in bucket:
                for ln, e in g:
                    f.write(ln)
                    owner.append((pl, g, e))
        ev = {"DVE_TRACE": tf}
        ev.update(env or {})
        rc, out, gen, dist = self.tlc(module, env=ev, mem=mem, timeout=timeout)
        fails = []
        for m in re.finditer(r'^"DVEFAIL (.*)"$', out, re.M):
            d = json.loads(json.loads('"' + m.group(1) + '"'))
            pl, g, e = owner[d["l"] - 1]
            fails.append({"labels": sorted(d["bad"]), "event": e, "plan": pl, "line": d["l"]})
        if rc != 0 and len(bucket) > 1 and depth < 12:
            # find the execution TLC cannot make sense of
            h = len(bucket) // 2
            self._validate(bucket[:h], module, name + "a", timeout, mem, env, depth + 1)
            self._validate(bucket[h:], module, name + "b", timeout, mem, env, depth + 1)
            return
        notes = re.findall(r'^"DVENOTE (\w+)', out, re.M)
        with self.lock:
            for x in notes:
                self.notes[x] = self.notes.get(x, 0) + 1
            self.fails += fails
            self.states += dist
            self.trans += gen
        if rc != 0:
            if "OutOfMemory" in out or rc >= 200 or "Parsing or semantic analysis failed" in out or "StackOverflow" in out:
                sys.stdout.write(out[-3000:])
                raise ToolError("TLC failed on a trace (exit %d)" % rc)
            m = re.findall(r"^/\\ l = (\d+)", out, re.M)
            at = min(int(m[-1]), len(owner)) if m else 1
            pl, g, e = owner[at - 1]
            with self.lock:
                self.fails.append({"labels": ["*:rejected"], "event": e, "plan": pl, "line": at,
                                   "tlc": out[-1500:]})
        os.remove(tf)

    # -- report --------------------------------------------------------------------------------
    def known(self):
        f = os.path.join(ROOT, "known_findings.json")
        return json.load(open(f)) if os.path.exists(f) else {"findings": [], "fixed": []}

    def finish(self, level="model_checking", assumptions=(), extra=None):
        mine = []
        for x in self.fails:
            ls = [y for y in x["labels"] if y.startswith(self.prop + ":") or y.startswith("*:")]
            if ls:
                mine.append((ls, x))
        listed = [k for k in self.known()["findings"] if k["property"] == self.prop]
        viol, seen = [], {}
        for ls, x in mine:
            rest = []
            for lab in ls:
                k = [f for f in listed if f["label"] == lab]
                if k:
                    seen.setdefault(lab, (k[0], x))
                else:
                    rest.append(lab)
            if rest:
                viol.append((rest, x))
        for lab, (k, x) in sorted(seen.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        code = 0
        if viol:
            code = 1
            kinds = {}
            for ls, x in viol:
                for lab in ls:
                    kinds.setdefault(lab, []).append(x)
            rd = os.path.join(ROOT, "work", "replay")
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, "%s-%s-%d.json" % (self.prop, self.tier, self.seed))
            with open(rp, "w") as f:
                json.dump({"property": self.prop, "seed": self.seed, "tier": self.tier,
                           "labels": {k: len(v) for k, v in kinds.items()},
                           "examples": [{"labels": ls, "event": x["event"], "plan": x["plan"],
                                         "tlc": x.get("tlc", "")} for ls, x in viol[:5]]}, f, indent=1)
            for k, v in sorted(kinds.items()):
                print("  %-40s %d event(s), e.g. %s" % (k, len(v), json.dumps(v[0]["event"])[:300]))
            print("VIOLATION property=%s replay=%s" % (self.prop, os.path.relpath(rp, ROOT)))
        cov = {"states": self.states, "transitions": self.trans, "traces_validated_against_impl": self.nplans,
               "events_validated": self.nevents, "model_checking_runs": self.mc, "samples": self.samples[:6],
               "timeline": self.timeline}
        cov.update(self.notes)
        if extra:
            cov.update(extra)
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
                       "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 1),
                       "violations": len(viol)}, f, indent=1)
        self.log("%s: %s, %d violation(s)" % (self.prop, "VIOLATED" if viol else "held on everything explored", len(viol)))
        shutil.rmtree(self.work, ignore_errors=True)
        return code

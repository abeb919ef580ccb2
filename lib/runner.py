"""Runs one check: builds the package under test, drives it, runs TLC, writes the verdict and the evidence file.

A check is a module in /verif/checks with   def run(ctx): ...
Verdicts are total:   exit 0  held on everything explored
                      exit 1  + "VIOLATION property=<id> replay=<path>"
                      exit 2  the machinery itself failed (no verdict)
"""
import concurrent.futures
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
import build  # noqa: E402

JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Violation(Exception):
    def __init__(self, what, data):
        Exception.__init__(self, what)
        self.what, self.data = what, data


class Machinery(Exception):
    pass


class TlcResult(object):
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        m2 = re.findall(r"([\d,]+) states generated", out)
        self.states = int(m[-1][1]) if m else 0
        self.transitions = int(m[-1][0]) if m else (int(m2[-1].replace(",", "")) if m2 else 0)
        self.ok = rc == 0

    def prints(self, tag):
        """JSON values printed with PrintT("tag " \\o ToJson(value))."""
        return [json.loads(json.loads('"' + t + '"')) for t in re.findall(r'^"%s (.*)"$' % tag, self.out, re.M)]


class Ctx(object):
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self._pkg = None
        self.states = self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.coverage = {}
        self.t0 = time.time()
        self.known = load_known(prop)
        self.known_hit = []
        self.findings = []

    @property
    def quick(self):
        return self.tier == "quick"

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def pkg(self):
        if self._pkg is None:
            try:
                self._pkg = build.prepare(self.scratch)
            except build.BuildError as e:
                # A tree that does not build is not a tree the property can be judged on
                raise Machinery("native build failed: %s" % e)
        return self._pkg

    def path(self, name):
        return os.path.join(self.scratch, name)

    # ---- the real code -------------------------------------------------------------------------------------------
    def drive(self, driver, spec=None, timeout=400, name=None, args=()):
        """Runs /verif/drivers/<driver> on the package under test.  spec (JSON) goes in, the driver's JSON comes out."""
        name = name or driver.replace(".py", "")
        fin, fout = self.path(name + ".in.json"), self.path(name + ".out.json")
        with open(fin, "w") as f:
            json.dump(spec, f)
        env = dict(os.environ)
        env.update(PYTHONPATH=self.pkg() + ":" + os.path.join(ROOT, "drivers"), PYTHONDONTWRITEBYTECODE="1",
                   OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", NUMBA_NUM_THREADS="1", MPLBACKEND="Agg",
                   PYTHONHASHSEED="0", VERIF_SEED=str(self.seed), HOME=self.scratch, MPLCONFIGDIR=self.path("mpl-" + name))
        wd = self.path("wd-" + name)
        os.makedirs(wd, exist_ok=True)
        log = self.path(name + ".log")
        try:
            with open(log, "wb") as lf:
                p = subprocess.run([build.PY, "-W", "ignore", os.path.join(ROOT, "drivers", driver), fin, fout] +
                                   list(args), cwd=wd, env=env, stdout=lf, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Violation("the code under test did not terminate within %d s" % timeout,
                            {"driver": driver, "input": spec, "log": tail(log)})
        shutil.rmtree(wd, ignore_errors=True)
        if p.returncode < 0 and not os.path.exists(fout):
            raise Violation("the code under test crashed the interpreter (signal %d)" % -p.returncode,
                            {"driver": driver, "input": spec, "log": tail(log)})
        if p.returncode == 3:      # see drivers/common.py: an exception that started inside the package under test
            raise Violation("the code under test raised an exception on a valid input",
                            {"driver": driver, "input": spec, "log": tail(log)})
        if p.returncode != 0 or not os.path.exists(fout):
            raise Machinery("driver %s failed (%s):\n%s" % (driver, p.returncode, tail(log)))
        with open(fout) as f:
            return json.load(f)

    def drive_many(self, jobs, workers=6):
        """jobs: list of (driver, spec, name); runs them in parallel, returns the outputs in order."""
        self.pkg()
        with concurrent.futures.ThreadPoolExecutor(workers) as ex:
            return list(ex.map(lambda j: self.drive(j[0], j[1], name=j[2], timeout=j[3] if len(j) > 3 else 400), jobs))

    # ---- TLC -----------------------------------------------------------------------------------------------------
    def tlc(self, module, cfg, env=None, args=(), timeout=800, workers="auto", heap="3g", consts=None):
        """Runs TLC on specs/<module>.tla with specs/<cfg>; consts (text) is appended to a scratch copy of the cfg."""
        d = tempfile.mkdtemp(prefix="tlc-", dir=self.scratch)
        cfgp = os.path.join(ROOT, "specs", cfg)
        if consts:
            txt = open(cfgp).read() + "\n" + consts + "\n"
            cfgp = os.path.join(d, cfg)
            open(cfgp, "w").write(txt)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-cp", JAR, "tlc2.TLC", "-metadir",
               os.path.join(d, "meta"), "-noGenerateSpecTE", "-workers", str(workers), "-config", cfgp] + list(args) + \
              [os.path.join(ROOT, "specs", module + ".tla")]
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=os.path.join(ROOT, "specs"), env=e, text=True, errors="replace",
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Machinery("TLC timed out on %s" % module)
        shutil.rmtree(d, ignore_errors=True)
        r = TlcResult(p.stdout, p.returncode, time.time() - t)
        with open(self.path("tlc-%s-%s.out" % (module, cfg)), "w") as f:
            f.write(p.stdout)
        return r

    def model_check(self, module, cfg, **kw):
        """The specification itself has the property (an error here is an error of the specification)."""
        r = self.tlc(module, cfg, **kw)
        if not r.ok:
            raise Machinery("TLC rejects the specification %s/%s (exit %d):\n%s" % (module, cfg, r.rc, r.out[-4000:]))
        self.states += r.states
        self.transitions += r.transitions
        self.coverage.setdefault("model", {})[module + "/" + cfg] = {"distinct_states": r.states,
                                                                     "states_generated": r.transitions,
                                                                     "wall_s": round(r.wall, 1)}
        return r

    def behaviours(self, module, cfg, tag="BEH", **kw):
        """Behaviours TLC prints as JSON: PrintT("BEH " \\o ToJson(...))."""
        r = self.tlc(module, cfg, **kw)
        out = r.prints(tag)
        if not out:
            raise Machinery("TLC printed no behaviour for %s/%s:\n%s" % (module, cfg, r.out[-3000:]))
        self.transitions += r.transitions
        self.states += r.states
        return out

    def validate(self, module, cfg, traces, label=None, inputs=None, batch=400, jobs=6, **kw):
        """Every recorded trace (list of events) must be a behaviour of the specification.

        The trace module prints REJECTED [[k, l], ...]: trace k could not take its event number l.
        inputs[k], when given, is what the driver was asked to do (it goes in the replay file)."""
        label = label or module
        bad = []
        if not traces:
            raise Machinery("no traces to validate for %s" % module)
        def one(b0):
            part = traces[b0:b0 + batch]
            fn = self.path("trace-%s-%d.ndjson" % (label, b0))
            with open(fn, "w") as f:
                for t in part:
                    f.write(json.dumps(t) + "\n")
            return self.tlc(module, cfg, env={"TRACE_FILE": fn}, workers=1, **kw)
        batch = max(20, min(batch, -(-len(traces) // jobs)))
        starts = list(range(0, len(traces), batch))
        with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
            results = list(ex.map(one, starts))
        for b0, r in zip(starts, results):
            self.states += r.states
            self.transitions += r.transitions
            rej = r.prints("REJECTED")
            if not rej:
                raise Machinery("TLC gave no verdict on the traces of %s/%s:\n%s" % (module, cfg, r.out[-4000:]))
            for k, l in rej[-1]:
                bad.append((b0 + int(k) - 1, int(l)))
            if not rej[-1] and r.rc != 0:
                raise Machinery("TLC failed on the traces of %s/%s:\n%s" % (module, cfg, r.out[-4000:]))
            self.last_out = r.out
        self.traces += len(traces)
        n = sum(len(t["ev"]) if isinstance(t, dict) and "ev" in t else 1 for t in traces)
        self.events += n
        self.coverage.setdefault("traces", {})[label] = {"traces": len(traces), "events": n}
        if traces and len(self.samples) < 6:
            self.samples.append({"spec": module, "trace": shrink(traces[0])})
        for k, l in bad:
            t = traces[k]
            ev = t["ev"][l - 1] if isinstance(t, dict) and "ev" in t and l - 1 < len(t["ev"]) else t
            what = "%s: event %d of recorded trace %d is not a step of the specification: %s" % (
                label, l, k, json.dumps(ev)[:700])
            data = {"module": module, "cfg": cfg, "trace_index": k, "event_index": l, "event": ev, "trace": t,
                    "input": inputs[k] if inputs else None}
            kf = self.match_known(label, t, ev, inputs[k] if inputs else None)
            if kf:
                self.known_hit.append(kf)
            else:
                raise Violation(what, data)
        return bad

    def match_known(self, label, trace, ev, inp):
        for k in self.known:
            m = k.get("match", {})
            if m.get("label") != label:
                continue
            if all((isinstance(src, dict) and src.get(kk) == vv)
                   for kk, vv, src in [(kk, vv, ev if kk in (ev or {}) else (inp if isinstance(inp, dict) else trace))
                                       for kk, vv in m.items() if kk != "label"]):
                return k
        return None

    def fail(self, what, **data):
        raise Violation(what, data)

    def require(self, cond, what):
        if not cond:
            raise Machinery(what)


def shrink(o, depth=0):
    if isinstance(o, dict):
        return {k: shrink(v, depth + 1) for k, v in list(o.items())[:12]}
    if isinstance(o, list):
        return [shrink(v, depth + 1) for v in o[:4]] + (["... %d more" % (len(o) - 4)] if len(o) > 4 else [])
    return o


def tail(fn, n=3500):
    try:
        with open(fn, errors="replace") as f:
            return f.read()[-n:]
    except OSError:
        return ""


def load_known(prop):
    fn = os.path.join(ROOT, "known-findings.json")
    if not os.path.exists(fn):
        return []
    return [k for k in json.load(open(fn)).get("known", []) if k["property"] == prop]


def write_evidence(ctx, violated=None):
    d = os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    cov = dict(ctx.coverage)
    cov.update(states=ctx.states, transitions=ctx.transitions, traces_validated_against_impl=ctx.traces,
               events_validated=ctx.events, samples=ctx.samples or ["none"])
    ev = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": "model_checking", "coverage": cov,
          "wall_s": round(time.time() - ctx.t0, 2)}
    if violated:
        ev["violation"] = violated
    with open(os.path.join(d, ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def main(prop, tier, seed):
    mod = os.path.join(ROOT, "checks", prop.lower() + ".py")
    spec = importlib.util.spec_from_file_location("check_" + prop, mod)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    ctx = Ctx(prop, tier, seed)
    rc = 2
    try:
        m.run(ctx)
        for what in dict.fromkeys(k["what"] for k in ctx.known_hit):
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
        write_evidence(ctx)
        print("OK property=%s tier=%s states=%d transitions=%d traces=%d events=%d wall=%.1fs" % (
            prop, tier, ctx.states, ctx.transitions, ctx.traces, ctx.events, time.time() - ctx.t0))
        rc = 0
    except Violation as v:
        d = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        fn = os.path.join(d, "%s-%s.json" % (prop, tier))
        with open(fn, "w") as f:
            json.dump({"property": prop, "what": v.what, "seed": seed, "data": v.data}, f, indent=1, default=str)
        write_evidence(ctx, v.what[:2000])
        print(v.what[:3000])
        print("VIOLATION property=%s replay=%s" % (prop, fn))
        rc = 1
    except Machinery as e:
        print("MACHINERY-ERROR property=%s: %s" % (prop, e))
    except Exception:
        traceback.print_exc()
        print("MACHINERY-ERROR property=%s" % prop)
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("scratch kept:", ctx.scratch)
        else:
            shutil.rmtree(ctx.scratch, ignore_errors=True)
    sys.stdout.flush()
    return rc

"""What every check shares: building, playing sessions on the real code, validating, reporting."""
import glob, copy, json, os, random, shutil, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from . import build, drv, tlc
from .lasfile import BIG

VERIF = build.VERIF


def saturate(x):
    if isinstance(x, bool):
        return x
    if isinstance(x, int):
        return x if -BIG <= x <= BIG else (BIG if x > 0 else -BIG)
    if isinstance(x, list):
        return [saturate(y) for y in x]
    if isinstance(x, tuple):
        return [saturate(y) for y in x]
    if isinstance(x, dict):
        return {k: saturate(v) for k, v in x.items()}
    return x


class Session:
    """A script for the driver, and how to turn each result into specification events."""

    def __init__(self, note="", **meta):
        self.ops, self.fns, self.note, self.meta = [], [], note, meta

    def op(self, o, fn=None):
        self.ops.append(o)
        self.fns.append(fn)
        return self

    def must(self, o):
        """a call that has to succeed for the session to make sense"""
        def f(r):
            return [] if r["ok"] else [{"event": "Unexpected", "op": o["op"], "err": r.get("err", "")[:200]}]
        return self.op(o, f)

    def events(self, results):
        out = []
        for r, f, o in zip(results, self.fns, self.ops):
            if not f:
                continue
            try:
                out += f(r)
            except Exception as x:
                # not an answer of the shape every answer to this question has
                out.append({"event": "Unexpected", "op": str(o.get("op")), "err": ("%s: %s" % (type(x).__name__, x) if r.get("ok") else str(r.get("err", "")))[:200]})
                break
        return saturate(out)


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random("%s/%s" % (prop, seed))
        self.t0 = time.time()
        for f in glob.glob(os.path.join(VERIF, "evidence", "replay", prop + "-*.json")):
            os.unlink(f)
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.notes, self.found = [], [], []
        self.counts = {}
        self.exe = self._dir = None
        self.level = "model_checking"
        self.assumptions = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    @property
    def dir(self):
        """a scratch directory for files written by the code under test"""
        if not self._dir:
            self._dir = tempfile.mkdtemp(prefix="vf-out-")
        return self._dir

    def build(self):
        self.exe = build.build()

    # ---- models
    def model(self, module, cfg, workers=4, timeout=800, heap="6g"):
        s = tlc.check(module, cfg, workers=workers, timeout=timeout, heap=heap)
        self.states += s["distinct"]
        self.transitions += s["generated"]
        self.notes.append("%s/%s: %d states, %d transitions, depth %d" % (module, cfg, s["distinct"], s["generated"], s["depth"]))
        return s

    def behaviours(self, module, cfg, num, depth, workers=1, **consts):
        """random behaviours of a specification, split over several TLC runs"""
        parts = min(4, max(1, num // 200))
        seeds = [self.rng.randrange(1 << 30) for _ in range(parts)]
        with tlc.variant(cfg, consts) as path, ThreadPoolExecutor(parts) as ex:
            r = []
            for x in ex.map(lambda s: tlc.generate(module, path, (num + parts - 1) // parts, depth, s, workers=workers), seeds):
                r += x
        self.notes.append("%s: %d behaviours generated" % (module, len(r)))
        return r[:num]

    def enumerate(self, module, cfg, workers=4, timeout=600):
        r, s = tlc.enumerate_(module, cfg, workers=workers, timeout=timeout)
        self.states += s["distinct"]
        self.transitions += s["generated"]
        return r

    # ---- sessions
    def play(self, sessions, module, cfg, timeout=60, label="", env=None):
        res = drv.run(self.exe, [s.ops for s in sessions], timeout=timeout)
        good, ev = [], []
        for s, r in zip(sessions, res):
            if isinstance(r, drv.Crash):
                again = drv.run_batch(self.exe, [s.ops], timeout)[0]
                if isinstance(again, drv.Crash):
                    self.violation("the code crashed or hung: %s" % again.why, s, {"tail": again.tail})
                    continue
                r = again
            good.append((s, r))
            ev.append(s.events(r))
        self.check_traces([s for s, _ in good], ev, module, cfg, label, rerun=True, env=env)
        return good

    def check_traces(self, sessions, ev, module, cfg, label="", rerun=False, env=None):
        rej, tot = tlc.validate(module, cfg, ev, env=env)
        self.states += tot["distinct"]
        self.transitions += tot["generated"]
        self.traces += tot["traces"]
        self.events += tot["events"]
        for e in ev:
            for x in e:
                self.counts[x["event"]] = self.counts.get(x["event"], 0) + 1
        if ev and len(self.samples) < 6:
            k = self.rng.randrange(len(ev))
            self.samples.append({"label": label, "note": sessions[k].note, "events": json.loads(json.dumps(ev[k])[:4000]) if len(json.dumps(ev[k])) < 4000
                                 else json.dumps(ev[k])[:4000]})
        for i, at, inv, out in rej:
            s = sessions[i]
            events = ev[i]
            if rerun and s.ops and len(self.found) < 6:
                r = drv.run_batch(self.exe, [s.ops])[0]
                if not isinstance(r, drv.Crash):
                    ev2 = s.events(r)
                    rej2, _ = tlc.validate(module, cfg, [ev2], env=env)
                    if not rej2:
                        # only some executions are wrong: still executions of the real code
                        self.notes.append("a rejected session was accepted when repeated")
                    else:
                        events, at = ev2, rej2[0][1]
            bad = events[at] if 0 <= at < len(events) else None
            self.violation("%s: event %d (%s) is not explained by the specification%s" %
                           (module, at, bad["event"] if bad else "end", (" / invariant " + ",".join(inv)) if inv else ""),
                           s, {"events": events, "rejected": at, "event": bad, "module": module, "cfg": cfg, "tlc": out[-3000:]})

    def violation(self, text, session, detail):
        n = len(self.found)
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (self.prop, n))
        with open(path, "w") as f:
            json.dump({"property": self.prop, "what": text, "note": session.note if session else "", "ops": session.ops if session else [],
                       "detail": detail}, f, indent=1, default=str)
        self.found.append((text, path))
        if n < 5:
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("  " + text)
            sys.stdout.flush()

    # ---- end
    def clean(self):
        if self._dir:
            shutil.rmtree(self._dir, ignore_errors=True)

    def finish(self):
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "events_validated": self.events, "events_by_kind": self.counts, "samples": self.samples[:6], "models": self.notes}
        e = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov, "assumptions": self.assumptions,
             "wall_s": round(time.time() - self.t0, 2), "violations": len(self.found)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(e, f, indent=1)
        print("%s %s: %d states, %d transitions, %d sessions (%d events) of the real code validated, %d violations, %.1f s" %
              (self.prop, self.tier, self.states, self.transitions, self.traces, self.events, len(self.found), time.time() - self.t0))
        return 1 if self.found else 0

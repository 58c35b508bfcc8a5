"""Runs TLC: exhaustive checks, behaviour generation and trace validation."""
import json, os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(Exception):
    pass


def scratch(prefix="tlc"):
    return tempfile.mkdtemp(prefix="vf-%s-" % prefix)


def tlc(module, cfg, workers=1, env=None, timeout=600, extra=(), heap="2g", metadir=None):
    """-> (returncode, output). The specification directory is only read."""
    d = metadir or scratch()
    os.makedirs(d, exist_ok=True)
    try:
        e = dict(os.environ)
        e.update(env or {})
        e.pop("JAVA_TOOL_OPTIONS", None)
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss64m", "-DTLA-Library=" + SPEC, "-cp", JARS, "tlc2.TLC",
               "-metadir", d, "-workers", str(workers), "-config", os.path.join(SPEC, cfg), "-noGenerateSpecTE",
               *extra, os.path.join(SPEC, module)]
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, env=e, cwd=d, timeout=timeout)
        except subprocess.TimeoutExpired as x:
            return -1, (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or "")
        return p.returncode, p.stdout + p.stderr
    finally:
        if not metadir:
            shutil.rmtree(d, ignore_errors=True)


def stats(out):
    m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out)
    d = re.findall(r"depth of the complete state graph search is (\d+)", out)
    g, s = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
    return {"generated": g, "distinct": s, "depth": int(d[-1]) if d else 0}


class variant:
    """A copy of a .cfg file with other constants; use as a context manager."""
    def __init__(self, cfg, consts):
        self.dir = scratch("cfg")
        s = open(os.path.join(SPEC, cfg)).read()
        for k, v in consts.items():
            s, n = re.subn(r"(?m)^(\s*%s\s*=\s*).*$" % k, lambda m: m.group(1) + str(v), s)
            if n != 1:
                raise TlcError("no constant %s in %s" % (k, cfg))
        self.path = os.path.join(self.dir, os.path.basename(cfg))
        with open(self.path, "w") as f:
            f.write(s)

    def __enter__(self):
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


def check(module, cfg, workers=4, timeout=600, heap="4g", extra=()):
    """Exhaustive check of a specification; raises on anything but success."""
    rc, out = tlc(module, cfg, workers=workers, timeout=timeout, heap=heap, extra=extra)
    if rc != 0 or "No error has been found" not in out:
        raise TlcError("TLC on %s with %s: rc=%s\n%s" % (module, cfg, rc, out[-3000:]))
    return stats(out)


def generate(module, cfg, num, depth, seed, workers=1, timeout=300, tag="BEHAVIOUR"):
    """Random behaviours of a specification: every PrintT(<<tag, ToJson(x)>>) line becomes one item."""
    rc, out = tlc(module, cfg, workers=workers, timeout=timeout,
                  extra=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)])
    r = []
    for line in out.splitlines():
        if line.startswith('<<"%s", ' % tag):
            s = line[len('<<"%s", ' % tag):-2]
            r.append(json.loads(json.loads(s)))
    if rc != 0 or not r:
        raise TlcError("TLC -simulate on %s: rc=%s\n%s" % (module, rc, out[-3000:]))
    return r


def enumerate_(module, cfg, workers=4, timeout=600, tag="BEHAVIOUR", heap="6g"):
    """Every item an exhaustive run of a generator module prints."""
    rc, out = tlc(module, cfg, workers=workers, timeout=timeout, heap=heap)
    r = []
    for line in out.splitlines():
        if line.startswith('<<"%s", ' % tag):
            r.append(json.loads(json.loads(line[len('<<"%s", ' % tag):-2])))
    if rc != 0 or not r:
        raise TlcError("TLC on %s: rc=%s\n%s" % (module, rc, out[-3000:]))
    return r, stats(out)


def _one(module, cfg, events, timeout, env=None):
    d = scratch("trace")
    try:
        path = os.path.join(d, "trace.ndjson")
        with open(path, "w") as f:
            for e in events:
                f.write(json.dumps(e, separators=(",", ":")) + "\n")
        rc, out = tlc(module, cfg, workers=1, env=dict(env or {}, TRACE=path), timeout=timeout, metadir=os.path.join(d, "meta"))
        if "StackOverflowError" in out or "OutOfMemoryError" in out:
            raise TlcError("trace validation with %s ran out of resources\n%s" % (module, out[-3000:]))
        m = re.findall(r'<<"MATCHED", (\d+)>>', out)
        if not m and "The behavior up to this point is" in out:
            # the specification's operators are undefined for what the code reported
            m = [str(int(x) - 1) for x in re.findall(r"^State (\d+):", out, re.M)]
        if not m or (rc != 0 and "is violated" not in out and "The behavior up to this point is" not in out):
            raise TlcError("trace validation with %s failed: rc=%s\n%s\n...\n%s" % (module, rc, out[:3000], out[-3000:]))
        inv = re.findall(r"Invariant (\w+) is violated", out)
        return int(m[-1]), inv, stats(out), out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def validate(module, cfg, sessions, procs=8, timeout=600, env=None):
    """sessions: list of event lists. Each is checked to be a behaviour of the trace specification.
    -> (rejections [(session index, event index, events)], totals)"""
    sess = [(i, s) for i, s in enumerate(sessions)]
    if not sess:
        return [], {"generated": 0, "distinct": 0, "traces": 0, "events": 0}
    # balance by number of events
    n = max(1, min(procs, len(sess)))
    parts = [[] for _ in range(n)]
    load = [0] * n
    for i, s in sorted(sess, key=lambda x: -len(json.dumps(x[1])) if len(sess) < 5000 else -len(x[1])):
        k = load.index(min(load))
        parts[k].append((i, s))
        load[k] += len(s) + 1
    rej = []
    tot = {"generated": 0, "distinct": 0, "traces": 0, "events": 0}

    def work(part):
        r = []
        st = {"generated": 0, "distinct": 0, "traces": 0, "events": 0}
        todo = list(part)
        tries = 0
        while todo:
            ev = []
            where = []
            for i, s in todo:
                ev.append({"event": "Begin", "session": i})
                where.append((i, -1))
                for j, e in enumerate(s):
                    ev.append(e)
                    where.append((i, j))
            n_ok, inv, sts, out = _one(module, cfg, ev, timeout, env)
            st["generated"] += sts["generated"]
            st["distinct"] += sts["distinct"]
            if n_ok >= len(ev) and not inv:
                st["traces"] += len(todo)
                st["events"] += len(ev)
                break
            # first event that no action of the specification explains
            k = min(n_ok, len(ev) - 1)
            i, j = where[k]
            # confirm on the session alone
            s = dict(todo)[i]
            ev1 = [{"event": "Begin", "session": i}] + s
            n1, inv1, _, out1 = _one(module, cfg, ev1, timeout, env)
            if n1 >= len(ev1) and not inv1:
                raise TlcError("rejection of session %d did not repeat alone" % i)
            r.append((i, n1 - 1, inv1, out1))
            pos = [x for x, (a, _) in enumerate(todo) if a == i][0]
            st["traces"] += pos
            st["events"] += k
            todo = todo[pos + 1:]
            tries += 1
            if tries >= 2:
                break
        return r, st

    with ThreadPoolExecutor(n) as ex:
        for r, st in ex.map(work, parts):
            rej += r
            for k in tot:
                tot[k] += st[k]
    return sorted(rej, key=lambda x: x[0]), tot

"""Runs scripts of public-API calls on the real code (the driver) and collects what they did."""
import json, os, subprocess, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:max_allocation_size_mb=6000",
           LC_ALL="C")


class DriverError(Exception):
    """the machinery itself failed (malformed script), not the code under test"""


class Crash:
    """The code under test crashed, aborted or hung while running a script."""
    def __init__(self, why, tail):
        self.why, self.tail = why, tail

    def __repr__(self):
        return "Crash(%s)" % self.why


def _reader(pipe, out, cond):
    for line in pipe:
        with cond:
            out.append(line)
            cond.notify()
    with cond:
        out.append(None)
        cond.notify()


def run_batch(exe, scripts, timeout=60, cwd=None):
    """-> list of results (one per script): list of op results, or a Crash"""
    res = []
    todo = list(enumerate(scripts))
    while todo:
        err = tempfile.TemporaryFile()
        p = subprocess.Popen([exe] if isinstance(exe, str) else exe, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=err, text=True, env=ENV, cwd=cwd)
        lines = []
        cond = threading.Condition()
        t = threading.Thread(target=_reader, args=(p.stdout, lines, cond), daemon=True)
        t.start()

        def feed(items=todo, p=p):
            try:
                for i, s in items:
                    p.stdin.write(json.dumps({"id": i, "ops": s}) + "\n")
                p.stdin.close()
            except (BrokenPipeError, ValueError, OSError):
                pass
        f = threading.Thread(target=feed, daemon=True)
        f.start()
        n = 0
        why = None
        while n < len(todo):
            with cond:
                ok = cond.wait_for(lambda: len(lines) > n, timeout)
            if not ok:
                why = "no answer within %d s" % timeout
                break
            if lines[n] is None:
                break
            r = json.loads(lines[n])
            res.append(r["res"])
            n += 1
        if n == len(todo):
            p.wait()
            f.join()
            break
        if why:
            p.kill()
        p.wait()
        f.join(5)
        err.seek(0)
        text = err.read().decode(errors="replace")
        if p.returncode in (98, 99) and not why:
            raise DriverError(text[-2000:])
        key = [l for l in text.splitlines() if "ERROR: AddressSanitizer" in l or "terminate called" in l or "runtime error" in l or "what():" in l]
        res.append(Crash(why or (key[0][:300] if key else "exit status %s" % p.returncode), text[-6000:]))
        todo = todo[n + 1:]
    return res


def run(exe, scripts, procs=8, timeout=60, cwd=None):
    if not scripts:
        return []
    n = max(1, min(procs, (len(scripts) + 3) // 4))
    parts = [list(range(i, len(scripts), n)) for i in range(n)]
    out = [None] * len(scripts)
    with ThreadPoolExecutor(n) as ex:
        for idx, rs in zip(parts, ex.map(lambda ix: run_batch(exe, [scripts[i] for i in ix], timeout, cwd), parts)):
            for i, r in zip(idx, rs):
                out[i] = r
    return out

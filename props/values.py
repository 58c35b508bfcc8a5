"""Small values: spec/Values.tla; recorded answers in spec/TraceValues.tla."""
import re, struct
from lib import gen, lasfile as L
from lib.ctx import Session
from . import geometry

INT = 2**31 - 1
REAL = re.compile(r"-?(?:inf|nan|\d+\.?\d*(?:e[+-]?\d+)?)")


def batches(c, asks, label, per=300):
    out = []
    for i in range(0, len(asks), per):
        s = Session("%s %d" % (label, i // per))
        for o, f in asks[i:i + per]:
            s.op(o, f)
        out.append(s)
    c.play(out, "TraceValues", "TraceValues.cfg", label=label)


def bad(r):
    return [{"event": "Unexpected", "err": r["err"][:200]}]


def whole(d, u):
    """d in multiples of 1/u"""
    x = L.unbits(d) if isinstance(d, str) else d
    y = x * u
    return int(y) if abs(y) < 2**31 and y == int(y) else "not whole: %r" % x


def wholes(v, u):
    w = [whole(d, u) for d in v]
    return w if all(isinstance(x, int) for x in w) else [2**31 - 1] * 3  # can't be an answer: operands are far smaller


def ask_vec(rng, python):
    u = rng.choice([1, 1, 2, 8])
    big = rng.choice([3, 20, 1000, 4000])

    def num():
        return rng.randint(-big, big) * (1 if rng.random() < .5 else u)
    b = [num() or u for _ in range(3)]
    d = num() or -u
    exact = rng.random() < .5
    if exact:
        b, d = [u * rng.choice([-7, -3, -2, -1, 1, 2, 5, 64]) for _ in b], u * rng.choice([-2, -1, 1, 2])
        a = [x // u * d // u * rng.randint(-40, 40) * rng.choice([1, u]) for x in b]
        exact = all((u * x) % y == 0 and (u * x) % d == 0 for x, y in zip(a, b))
    else:
        a = [num() for _ in range(3)]
    if rng.random() < .3:
        b = [x or y for x, y in zip(a, b)]
        if rng.random() < .5:
            i = rng.randrange(3)
            b[i] = b[i] + u or 2 * u
        exact = False

    def f(r):
        if not r["ok"]:
            return bad(r)
        e = {k: wholes(r[k], u) for k in ("add", "sub", "addd", "subd")}
        e.update({k: wholes(r[k], u * u) for k in ("mul", "muld")})
        if exact:
            e.update({k: wholes(r[k], u) for k in ("div", "divd")})
        if python:
            e.update({k: wholes(r[k], 1) for k in ("fdiv", "fdivd")})
        e.update({k: r[k] for k in ("eq", "ne")})
        return [{"event": "Vec", "u": u, "a": a, "b": b, "d": d, "exact": exact, "floor": python, "r": e}]
    return {"op": "vec.ops", "a": [x / u for x in a], "b": [x / u for x in b], "d": d / u}, f


def ask_list(rng, n):
    v = [L.bits(real(rng)) for _ in range(n)]
    return {"op": "vec.vec", "v": v}, lambda r: [{"event": "List", "given": v, "ok": r["ok"], "v": r.get("v", [])}]


def real(rng):
    k = rng.randrange(8)
    if k == 0:
        return rng.choice([0.0, -0.0, 1.0, -1.0, 0.1, 1e15, 1e16, 1e17, -1e-5, 1e-4, 123456.789, 1e300, 5e-324, -1.7976931348623157e308])
    if k == 1:
        return float(rng.randint(-10**rng.randrange(1, 17), 10**rng.randrange(1, 17)))
    if k < 5:
        return rng.randint(-2**53, 2**53) * 10.0 ** rng.randrange(-20, 5)
    while True:
        x = struct.unpack("<d", struct.pack("<Q", rng.getrandbits(64)))[0]
        if abs(x) < float("inf"):
            return x


def ask_text(rng, kind):
    """the numbers, in the order they are in"""
    if kind == "key":
        v = geometry.odd_key(rng) if rng.random() < .5 else geometry.deep_key(rng)
        return {"op": "text", "kind": kind, "v": v}, lambda r: [{"event": "Text", "v": v, "back": [int(x) for x in re.findall(r"-?\d+", r["text"])]}] if r["ok"] else bad(r)
    v = [real(rng) for _ in range(3 if kind == "vec" else 6)]
    if kind == "box":
        v = [min(x, y) for x, y in zip(v, v[3:])] + [max(x, y) for x, y in zip(v, v[3:])]
    v = [L.bits(x) for x in v]

    def f(r):
        if not r["ok"]:
            return bad(r)
        t = re.sub(r"[A-Za-z_]+(?==|:)", "", r["text"])      # without the names
        return [{"event": "Text", "v": v, "back": [L.bits(float(x)) for x in REAL.findall(t)]}]
    return {"op": "text", "kind": kind, "v": v}, f


def le(n, k):
    return list((n % (1 << 8 * k)).to_bytes(k, "little"))


def entry(rng):
    k = geometry.odd_key(rng) if rng.random() < .4 else geometry.deep_key(rng)
    off = rng.choice([0, 1, 375, 2**31, 2**32 - 1, 2**32, 2**63 - 1, rng.getrandbits(rng.randrange(1, 63))])
    size = rng.choice([0, 0, 1, 32, 255, 65536, INT, -1, -2, -INT - 1, rng.randint(-9, INT)])
    n = rng.choice([-1, -1, 0, 1, 255, 65536, INT, -2, -INT - 1, rng.randint(-9, INT)])
    return {"key": k, "off": off, "size": size, "count": n}


def ask_entry(rng):
    e = entry(rng)

    def f(r):
        if not r["ok"]:
            return bad(r)
        return [{"event": "Entry", "k": e["key"], "size": e["size"], "n": e["count"], "kb": [le(x, 4) for x in e["key"]], "ob": le(e["off"], 8), "sb": le(e["size"], 4),
                 "nb": le(e["count"], 4), "bytes": list(bytes.fromhex(r["bytes"])), "again": list(bytes.fromhex(r["again"])),
                 "valid": r["valid"], "page": r["page"], "pvalid": r["pvalid"], "lvalid": r["lvalid"]}]
    return {"op": "entry", "v": e}, f


def ask_entry_text(rng):
    e = entry(rng)
    v = [str(x) for x in e["key"] + [e["off"], e["size"], e["count"]]]
    return {"op": "text", "kind": "entry", "v": e}, lambda r: [{"event": "Text", "v": v, "back": re.findall(r"-?\d+", r["text"])[:7]}] if r["ok"] else bad(r)


def ask_entries(rng):
    a = entry(rng)
    b = dict(a, key=list(a["key"]))
    if rng.random() < .8:
        other = entry(rng)
        for f in rng.sample(["off", "size", "count"], rng.choice([0, 1, 1, 2])):
            b[f] = other[f]
        if rng.random() < .5:
            i = rng.randrange(4)
            b["key"][i] = rng.choice([b["key"][i] ^ 1, -1, b["key"][(i + 1) % 4]])
        if rng.random() < .2:
            b["off"] = a["off"] ^ 1 << rng.randrange(63)
    la, lb = rng.random() < .5, rng.random() < .5

    def asEvent(e):
        return {"key": [le(x, 4) for x in e["key"]], "off": le(e["off"], 8), "size": le(e["size"], 4), "n": le(e["count"], 4)}
    return {"op": "entry.eq", "a": a, "b": b, "la": la, "lb": lb}, \
        lambda r: [{"event": "Entries", "a": asEvent(a), "b": asEvent(b), "la": la, "lb": lb, "node": r["node"], "pages": r["pages"]}] if r["ok"] else bad(r)


def asks(c, n, python=False):
    rng = c.rng
    out = [ask_vec(rng, python) for _ in range(4 * n)] + [ask_list(rng, k) for k in list(range(9)) + [30] for _ in range(max(1, n // 30))]
    out += [ask_text(rng, k) for k in ("key", "vec", "box") for _ in range(n)]
    if not python:
        out += [ask_entry(rng) for _ in range(2 * n)] + [ask_entries(rng) for _ in range(2 * n)] + [ask_entry_text(rng) for _ in range(n)]
    rng.shuffle(out)
    return out


def C25(c):
    c.model("MCValues", "MCValues.cfg", workers=8)
    batches(c, asks(c, c.pick(500, 10000)), "values")
    from . import pipeline
    c.exe = pipeline.driver("pydrv.py")
    batches(c, asks(c, c.pick(200, 4000), True), "Python values")

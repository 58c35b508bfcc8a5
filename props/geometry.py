"""Keys and boxes: spec/Keys.tla, spec/Geometry.tla; recorded answers in spec/TraceGeometry.tla."""
import math, struct
from fractions import Fraction
from lib import gen, lasfile as L
from lib.ctx import Session

INT = 2**31 - 1


def batches(c, asks, label, per=400):
    """stateless questions [(op, events of the result)] in sessions"""
    out = []
    for i in range(0, len(asks), per):
        s = Session("%s %d" % (label, i // per))
        for o, f in asks[i:i + per]:
            s.op(o, f)
        out.append(s)
    c.play(out, "TraceGeometry", "TraceGeometry.cfg", label=label)


def up(k):
    return [k[0] - 1] + [v >> 1 for v in k[1:]]


# ------------------------------------------------------------ C11
def ask_info(k):
    down = min(k) >= 0 and max(k) <= 2**30 - 1

    def f(r):
        return [dict({x: r[x] for x in ("valid", "after", "parent", "parents", "selfparents", "children", "bisect")}, event="KeyInfo", k=k, down=down)] \
            if r["ok"] else [{"event": "Unexpected", "err": r["err"]}]
    return {"op": "key.info", "k": k, "down": down}, f


def ask_at(k, d):
    return {"op": "key.at", "k": k, "d": d}, lambda r: [{"event": "KeyAt", "k": k, "d": d, "ok": r["ok"], "v": r.get("v", [])}]


def ask_rel(a, b):
    return {"op": "key.rel", "a": a, "b": b}, lambda r: [dict({x: r[x] for x in ("childof", "eq", "ne", "heq")}, event="KeyRel", a=a, b=b)] \
        if r["ok"] else [{"event": "Unexpected", "err": r["err"]}]


def small_keys(depth):
    return [[d, x, y, z] for d in range(depth + 1) for x in range(1 << d) for y in range(1 << d) for z in range(1 << d)]


def deep_key(rng, top=31):
    d = rng.randrange(top + 1)
    m = (1 << d) - 1
    return [d] + [rng.choice([0, m, m - (m >> 1), rng.randint(0, m)]) for _ in range(3)]


def odd_key(rng):
    k = deep_key(rng)
    i = rng.randrange(4)
    k[i] = rng.choice([-1, -2, -INT - 1, k[i] + 1 if k[i] < INT else -1, -k[i], rng.randint(0, INT) if i else rng.randrange(40)])
    return k


def relatives(rng, k):
    """keys near k's chain"""
    c, x = [], list(k)
    while x[0] >= 0:
        c.append(x)
        x = up(x)
    a = list(rng.choice(c))
    how = rng.choice(["chain", "side", "depth", "low", "down", "same"])
    if how == "side":
        i = rng.randrange(1, 4)
        a[i] ^= 1 << rng.randrange(max(1, a[0]))
    if how == "depth":
        a[0] = max(0, a[0] + rng.choice([-1, 1]))
    if how == "low":
        i = rng.randrange(1, 4)
        a[i] += rng.choice([-1, 1])
        a[i] = min(a[i], INT)
    if how == "down":
        return [min(31, k[0] + 1)] + [min(INT, 2 * v + rng.randrange(2)) for v in k[1:]]
    if how == "same":
        return list(k)
    return a


def man_exp(v):
    """a double as mantissa and exponent"""
    m, e = math.frexp(v)
    return [m.hex(), e]


def ask_res(k, spacing):
    return {"op": "key.res", "k": k, "spacing": L.bits(spacing)}, lambda r: [
        {"event": "KeyRes", "k": k, "spacing": man_exp(spacing), "res": man_exp(L.unbits(r["res"])), "at": man_exp(L.unbits(r["at"]))}]


def key_asks(c):
    rng = c.rng
    asks = [({"op": "key.consts"}, lambda r: [dict({x: r[x] for x in ("root", "inv", "def")}, event="KeyConsts")])]
    for k in small_keys(c.pick(2, 3)):
        asks.append(ask_info(k))
        for d in range(-1, k[0] + 2):
            asks.append(ask_at(k, d))
    n = c.pick(1, 12)
    deep = [deep_key(rng) for _ in range(300 * n)] + [odd_key(rng) for _ in range(200 * n)] + gen.INVALID + gen.OUTSIDE
    # valid keys whose depth is large: only what can be listed
    for k in deep:
        if min(k) < 0 or k[0] <= 60:
            asks.append(ask_info(k))
            for d in {0, k[0], k[0] - 1, -1, k[0] + 1, rng.randrange(-3, 40), INT, -INT}:
                if -INT <= d <= INT:
                    asks.append(ask_at(k, d))
    pool = small_keys(c.pick(1, 2))
    for a in pool:
        for b in pool:
            asks.append(ask_rel(a, b))
    # keys that are no keys, among each other and with ordinary ones
    no = gen.INVALID + gen.OUTSIDE + [odd_key(rng) for _ in range(10 * n)] + [[1, 1, 1, 1], [0, 0, 0, 0], [2, 3, 0, 1]]
    no = [k for k in no if k[0] <= 60]
    for a in no:
        for b in no:
            asks.append(ask_rel(a, b))
    two = small_keys(2)
    for _ in range(1200 * n):
        k = rng.choice([deep_key(rng, 31), deep_key(rng, 31), rng.choice(two), odd_key(rng)])
        if k[0] > 60:
            continue
        a = relatives(rng, k) if min(k) >= 0 else rng.choice([list(k), odd_key(rng)])
        asks.append(ask_rel(k, a))
        asks.append(ask_rel(a, k) if a[0] <= 60 else ask_rel(k, k))
    for v in ([], [1], [1, 2, 3], [1, 2, 3, 4], [2, 3, 1, 0], [1, 2, 3, 4, 5], [0, 0, 0, 0], [-1, 5, 7, 9]):
        asks.append(({"op": "key.vec", "v": v}, lambda r, v=v: [{"event": "KeyVec", "given": v, "ok": r["ok"], "v": r.get("v", [])}]))
    for _ in range(300 * n):
        asks.append(ask_res(deep_key(rng), rng.choice([1.0, 0.5, 37.0, 1 / 3, 1e-3, 123456.789, 1e200, rng.random() * 100, 0.1 * rng.randrange(1, 10**6)])))
    rng.shuffle(asks)
    return asks


def C11(c):
    c.model("MCGeometry", "MCGeometry.cfg")
    c.assumptions += ["keys up to depth 31 (the deepest whose coordinates fit), depths above 60 not asked"]
    batches(c, key_asks(c), "key arithmetic")


# ------------------------------------------------------------ C12
DMAX = struct.unpack("<d", b"\xff\xff\xff\xff\xff\xff\xef\x7f")[0]
POOL = [0.0, -0.0, 1.0, -1.0, 0.1, 0.1 + 2**-56, math.nextafter(1.0, 2), math.nextafter(1.0, 0), 5e-324, -5e-324, 2.2250738585072014e-308, 1e300, -1e300,
        math.inf, -math.inf, 350000.01, 350000.02, 1 / 3, 2 / 3, 123.456, -0.001]


class Ranks:
    """doubles by their order; the greatest finite one is the top of flat boxes"""

    def __init__(self, vals):
        # ranks symmetric around zero, so that -top is the rank of the lowest finite value
        pos = sorted({abs(v) for v in vals} | {DMAX, 0.0})
        self.r = {v: i for i, v in enumerate(pos)}
        self.top = self.r[DMAX]

    def __call__(self, v):
        i = self.r.get(abs(v))
        return "unknown value" if i is None else (-i if v < 0 else i)

    def all(self, hexes):
        r = [self(L.unbits(h)) for h in hexes]
        # a value that isn't among the given ones can't be a right answer; keep the types uniform for TLC
        return [99999 + i if isinstance(x, str) else x for i, x in enumerate(r)]


def bx(v):
    return [L.bits(x) for x in v]


def ask_new(rk, v, how):
    o = {"op": "box.new", "how": how, "v": bx(v)}
    return o, lambda r: [{"event": "BoxNew", "how": how, "given": [rk(x) for x in v], "top": rk.top, "ok": r["ok"], "v": rk.all(r["v"]) if r["ok"] else []}]


def ask_boxes(rk, a, b):
    return {"op": "box.rel", "a": bx(a), "b": bx(b)}, lambda r: [dict({x: r[x] for x in ("inter", "cont", "within")}, event="BoxRel", a=[rk(x) for x in a],
                                                                     b=[rk(x) for x in b])] if r["ok"] else [{"event": "Unexpected", "err": r["err"]}]


def ask_has(rk, a, p):
    return {"op": "box.has", "a": bx(a), "p": bx(p)}, lambda r: [{"event": "BoxHas", "a": [rk(x) for x in a], "p": [rk(x) for x in p], "v": r["v"]}] \
        if r["ok"] else [{"event": "Unexpected", "err": r["err"]}]


def ask_cell(k, mn, mx, unit):
    o = {"op": "key.box", "k": k, "min": bx([v * unit for v in mn]), "max": bx([v * unit for v in mx])}

    def g(h):
        q = Fraction(L.unbits(h)) / Fraction(unit)
        return int(q) if q.denominator == 1 and abs(q) < INT else -INT

    def f(r):
        if not r["ok"]:
            return [{"event": "Unexpected", "err": r["err"]}]
        return [{"event": "KeyBox", "k": k, "min": mn, "max": mx, "v": [g(h) for h in r["v"]], "span": g(r["span"]), "bounds": [g(h) for h in r["bounds"]]}]
    return o, f


def ask_near(k, mn, mx):
    o = {"op": "key.box", "k": k, "min": bx(mn), "max": bx(mx)}
    span = max(Fraction(b) - Fraction(a) for a, b in zip(mn, mx))
    size = max(abs(v) for v in mn + mx) + float(span)
    ulp = Fraction(math.ulp(size))

    def f(r):
        if not r["ok"]:
            return [{"event": "Unexpected", "err": r["err"]}]
        st = span / 2 ** k[0]
        want = [st * k[i + 1] + Fraction(mn[i]) for i in range(3)]
        want += [w + st for w in want]
        got = [L.unbits(h) for h in r["v"]]
        if any(math.isinf(x) or math.isnan(x) for x in got):
            return [{"event": "Unexpected", "err": "not finite"}]
        return [{"event": "KeyBoxNear", "k": k, "tol": 8, "ulps": [max(-10**9, min(10**9, math.ceil((Fraction(x) - w) / ulp))) for x, w in zip(got, want)]}]
    return o, f


def ask_spat(k, mn, mx, b, p, unit):
    o = {"op": "key.spat", "k": k, "min": bx([v * unit for v in mn]), "max": bx([v * unit for v in mx]), "b": bx([v * unit for v in b]), "p": bx([v * unit for v in p])}
    return o, lambda r: [dict({x: r[x] for x in ("inter", "cont", "within", "crosses", "has")}, event="KeySpat", k=k, min=mn, max=mx, b=b, p=p)] \
        if r["ok"] else [{"event": "Unexpected", "err": r["err"]}]


def cell(k, mn, span):
    st = span >> k[0]
    lo = [mn[i] + st * k[i + 1] for i in range(3)]
    return lo, [v + st for v in lo]


def box_asks(c):
    rng = c.rng
    n = c.pick(1, 12)
    asks = []
    # all relations of two intervals on every axis, on coarse and on arbitrary doubles
    iv = [(a, b) for a in range(4) for b in range(a, 4)]
    pairs = [(x, y) for x in iv for y in iv]
    for i in range(c.pick(3000, 40000)):
        vals = sorted(rng.sample(POOL, 4)) if rng.random() < .5 else rng.choice([[0.0, 1.0, 2.0, 3.0], [-2.0, -1.0, 0.0, 1.0], [0.1, 0.2, 0.3, 0.4]])
        rk = Ranks(vals)
        easy = ((0, 3), (1, 2))
        ax = [rng.choice(pairs) if rng.random() < .6 else easy for _ in range(3)]
        if i < 300:  # one axis decides
            ax = [easy] * 3
            ax[i % 3] = pairs[i // 3]
        a = [vals[p[0][0]] for p in ax] + [vals[p[0][1]] for p in ax]
        b = [vals[p[1][0]] for p in ax] + [vals[p[1][1]] for p in ax]
        asks.append(ask_boxes(rk, a, b))
        if rng.random() < .5:
            asks.append(ask_boxes(rk, b, a))
        p = [vals[rng.randrange(4)] if rng.random() < .6 else vals[1] for _ in range(3)]
        asks.append(ask_has(rk, a, p))
    rk = Ranks(POOL)
    for _ in range(c.pick(800, 8000)):
        v = [rng.choice(POOL) for _ in range(6)]
        if rng.random() < .7:
            for i in range(3):
                v[i], v[i + 3] = sorted((v[i], v[i + 3]))
            if rng.random() < .5:
                i = rng.randrange(3)
                v[i], v[i + 3] = v[i + 3], v[i]
        asks.append(ask_new(rk, v, rng.choice(["vec", "args", "v3"])))
        w = v[:2] + v[3:5]
        asks.append(ask_new(rk, w, rng.choice(["vec", "args"])))
        if rng.random() < .1:
            asks.append(ask_new(rk, [1.0] * rng.choice([0, 1, 2, 3, 5, 7, 12]), "vec"))
        # flat boxes against others
        if w[0] <= w[2] and w[1] <= w[3]:
            fl = w[:2] + [-DMAX] + w[2:] + [DMAX]
            o = [rng.choice(POOL) for _ in range(3)]
            asks.append(ask_has(rk, fl, o))
            asks.append(ask_boxes(rk, fl, o + o))
    asks.append(({"op": "box.new", "how": "max", "v": []}, lambda r: [{"event": "MaxBox", "v": rk.all(r["v"]), "top": rk.top}]))
    # cells of keys, exactly, on a grid
    for _ in range(1200 * n):
        top = rng.choice([0, 1, 3, 8, 20, 29])
        depth = rng.randint(0, top)
        span = rng.choice([1, 1, 3]) << top if top < 28 else 1 << top
        mn = [rng.choice([0, -span, 7, rng.randint(-2**28, 2**28)]) for _ in range(3)]
        ext = [span] + [rng.choice([0, span, span // 2, rng.randint(0, span)]) for _ in range(2)]
        rng.shuffle(ext)
        mx = [a + e for a, e in zip(mn, ext)]
        m = (1 << depth) - 1
        k = [depth] + [rng.choice([0, m, rng.randint(0, m)]) for _ in range(3)]
        unit = rng.choice([1.0, 1.0, 0.5, 2.0**-10, 2.0**-20, 1024.0, 3.0])
        asks.append(ask_cell(k, mn, mx, unit))
        lo, hi = cell(k, mn, span)
        st = span >> depth
        for _ in range(2):
            b, p = [0] * 6, [0] * 3
            for i in range(3):
                u = sorted([rng.choice([lo[i], hi[i], lo[i] - 1, lo[i] + 1, hi[i] - 1, hi[i] + 1, lo[i] - st, hi[i] + st, rng.randint(lo[i], hi[i])]) for _ in range(2)])
                if rng.random() < .5:
                    u = rng.choice([[lo[i], hi[i]], [lo[i] - 1, hi[i] + 1], [lo[i], hi[i] + st], [lo[i], lo[i]], [hi[i], hi[i]]])
                b[i], b[i + 3] = u
                p[i] = rng.choice([lo[i], hi[i], lo[i] - 1, hi[i] + 1, rng.randint(lo[i], hi[i]), (lo[i] + hi[i]) // 2, lo[i], hi[i]])
            if max(map(abs, b)) < 2**30 * 2 - 1:
                asks.append(ask_spat(k, mn, mx, b, p, unit))
    # and off the grid
    for _ in range(400 * n):
        mn = [rng.choice([0.1, -1e6 / 3, rng.uniform(-1e6, 1e6), 350000.123]) for _ in range(3)]
        mx = [v + rng.choice([0.0, 0.3, rng.uniform(0, 1e4), 777.7]) for v in mn]
        mx[rng.randrange(3)] += 1.1
        k = deep_key(rng, rng.choice([20, 31]))
        if rng.random() < .3:   # down to the deepest, and beyond what coordinates can reach
            k = [rng.choice([30, 31, 31, 32, 33, 48, 60])] + [rng.choice([0, 1, INT, rng.randint(0, INT)]) for _ in range(3)]
        asks.append(ask_near(k, mn, mx))
    rng.shuffle(asks)
    return asks


def C12(c):
    c.model("MCGeometry", "MCGeometry.cfg")
    c.assumptions += ["cells are compared exactly where halving is exact, and within 8 units in the last place of the largest coordinate elsewhere"]
    batches(c, box_asks(c), "boxes and cells")

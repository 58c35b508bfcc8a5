"""The compression helpers: spec/Codec.tla, traces in spec/TraceCodec.tla."""
from lib import gen, lasfile as L
from lib.ctx import Session
from lib.gen import short


class Shape:
    def __init__(self, fmt, ebb):
        self.fmt, self.ebb = fmt, ebb


class Codec:
    def __init__(self, c, s, big):
        self.c, self.s, self.rng = c, s, c.rng
        r = self.rng
        self.ebs = {0: 0, 1: 1, 2: r.choice([2, 3, 7, r.randrange(2, 60)]), 3: r.choice([120, 255, 256, 257, 1000]), 4: r.choice([5000, 60000])}
        self.big, self.blocks, self.hdrs = big, {}, set()
        self.text, self.where = {}, {}         # per stream: bytes so far, (offset, layout, block)

    def real(self, lay):
        return lay[0], self.ebs[lay[1]]

    def block(self, lay, b):
        """the records of block number b in this layout"""
        k = (tuple(lay), b)
        if k not in self.blocks:
            fmt, ebb = self.real(lay)
            base = L.BASE.get(fmt, 28)
            cfg, rng = Shape(fmt if fmt in L.BASE else 6, ebb), self.rng
            def rows(n):
                if fmt not in L.BASE:
                    return [bytes(rng.randrange(256) for _ in range(base + ebb)) for _ in range(n)]
                return [L.pack_row(x, cfg.fmt, cfg.ebb) for x in gen.rows(rng, cfg, n)]
            many = self.big if ebb < 300 else 3
            if b == 4:
                out = rows(1) * min(many, 40)
            elif b == 5:
                out = list(self.block(lay, 2))
                last = bytearray(out[-1])
                last[rng.randrange(len(last))] ^= 1 << rng.randrange(8)
                out[-1] = bytes(last)
            elif b == 7:
                out = [bytes([v]) * (base + ebb) for v in (0, 255, 0)]
            else:
                out = rows({0: 0, 1: 1, 2: 2, 3: min(many, rng.randrange(3, 50)), 6: many}[b])
            self.blocks[k] = out
        return self.blocks[k]

    def tokens(self, rows):
        return [short(r.hex()) for r in rows]

    def form(self, o, lay, hdr):
        fmt, ebb = self.real(lay)
        if not hdr:
            return dict(o, fmt=fmt, eb=ebb)
        name = "h%d-%d" % (fmt, ebb)
        if name not in self.hdrs:
            self.hdrs.add(name)
            self.s.op({"op": "hdr.new", "name": name, "fmt": fmt, "reclen": L.BASE.get(fmt, 28) + ebb, "scale": [1.0] * 3, "offset": [0.0] * 3, "copc": False})
        return dict(o, hdr=name)

    def given(self, e):
        """-> the bytes handed over and the records they are"""
        rows = self.block(e["lay"], e["b"])
        data = b"".join(rows)
        if not e["whole"]:
            w = L.BASE.get(e["lay"][0], 28) + self.real(e["lay"])[1]
            k = self.rng.choice([1, w - 1, self.rng.randrange(1, w)])
            data = data + b"\x07" * k if self.rng.random() < .5 or len(data) < w else data[:len(data) - k]
        return data, self.tokens(rows)

    def do(self, e):
        getattr(self, "do_" + e["op"])(e)

    def do_new(self, e):
        n = e["s"]
        pre = bytes(self.rng.randrange(256) for _ in range(self.rng.choice([0, 1, 100])))
        self.text[n], self.where[n] = [pre], []
        txt = [pre]
        self.text[n] = txt
        self.s.op({"op": "cs.new", "name": n, "pre": pre.hex()}, lambda r: [{"event": "New", "s": n}])

    def do_put(self, e):
        n, lay = e["s"], e["lay"]
        data, rows = self.given(e)
        txt, where = self.text[n], self.where[n]
        good = e["whole"] and lay[0] in L.BASE
        if good:
            where.append((lay, e["b"], len(where), txt))

        def f(r):
            old = b"".join(txt)
            new = bytes.fromhex(r["hex"])
            ev = {"event": "Put", "s": n, "lay": lay, "whole": e["whole"], "rows": rows, "ok": r["done"], "n": r.get("n", 0),
                  "kept": new[:len(old)] == old and (not r["done"] or r["put"] == len(new)), "added": len(new) - len(old), "code": short(new[len(old):].hex())}
            if r["done"]:
                txt.append(new[len(old):])
            return [ev]
        self.s.op(self.form({"op": "cs.put", "name": n, "bytes": data.hex()}, lay, e["hdr"]), f)

    def do_enc(self, e):
        lay = e["lay"]
        data, rows = self.given(e)
        def f(r):
            return [{"event": "Encode", "lay": lay, "whole": e["whole"], "rows": rows, "ok": r["ok"], "code": short(r["v"]) if r["ok"] else ""}]
        self.s.op(self.form({"op": "codec.c", "how": "vechdr" if e["hdr"] else "vec", "bytes": data.hex()}, lay, e["hdr"]), f)

    def part(self, rows, e):
        n = len(rows)
        return n if e["part"] == 100 else 0 if e["part"] == 0 else self.rng.randrange(n + 1)

    def split(self, lay, hexed):
        w = L.BASE[lay[0]] + self.real(lay)[1]
        b = bytes.fromhex(hexed)
        return [short(b[i:i + w].hex()) for i in range(0, len(b), w)]


class Player(Codec):
    """needs what the code did so far to say where a block begins: compresses independently"""

    def offset(self, n, i):
        t = len(self.text[n][0])
        for lay, b, _, _ in self.where[n][:i]:
            t += len(self.code(lay, b))
        return t

    def code(self, lay, b):
        fmt, ebb = self.real(lay)
        return L.encode(b"".join(self.block(lay, b)), fmt, ebb)

    def do_get(self, e):
        n, i = e["s"], e["i"] - 1
        lay, b, _, _ = self.where[n][i]
        k = self.part(self.block(lay, b), e)
        def f(r):
            return [{"event": "Get", "s": n, "i": i + 1, "k": k, "ok": r["ok"], "usable": r.get("usable", False),
                     "rows": self.split(lay, r["v"]) if r["ok"] else []}]
        self.s.op(self.form({"op": "cs.get", "name": n, "at": self.offset(n, i), "n": k}, lay, e["hdr"]), f)

    def do_dec(self, e):
        lay, b = e["lay"], e["b"]
        code = self.code(lay, b)
        k = self.part(self.block(lay, b), e)
        def f(r):
            return [{"event": "Decode", "lay": lay, "code": short(code.hex()), "k": k, "ok": r["ok"], "rows": self.split(lay, r["v"]) if r["ok"] else []}]
        self.s.op(self.form({"op": "codec.d", "how": "vechdr" if e["hdr"] else "vec", "bytes": code.hex(), "n": k}, lay, e["hdr"]), f)


def C22(c):
    c.model("MCCodec", "MCCodec.cfg", workers=4)
    ss = []
    d = c.pick(24, 40)
    for i, h in enumerate(c.behaviours("GenCodec", "GenCodec.cfg", c.pick(240, 2500), d + 2, Depth=d)):
        s = Session("codec history %d" % i)
        p = Player(c, s, c.rng.choice([5, 40, 120]) if i % 20 else c.pick(600, 3000))
        for e in h:
            p.do(e)
        ss.append(s)
    c.play(ss, "TraceCodec", "TraceCodec.cfg", label="codec histories")

"""Random cases: scripts of API calls for the harness.

Nothing here knows what a call should return: the TLA+ module Session decides.
Every choice comes from the given random.Random, so a seed fixes the cases.
"""
import random
import re

NULL = {"t": "null"}

# Sizes at which another byte of a length or an offset comes into play.
LONG = [4096, 16380, 16383, 16384, 16400, 16511, 16512, 32767, 32768, 65520, 65530, 65535, 65536, 66000, 70000]
LONG_KEY = [128, 255, 256, 4096, 16384, 32767, 32768, 65500, 65518, 65518]


def B(s):
    return list(s.encode("utf-8", "surrogatepass") if isinstance(s, str) else s)


def Str(s):
    return {"t": "str", "s": B(s)}


def Bool(x):
    return {"t": "bool", "b": x}


def Num(neg, digits, e):
    ds = [int(c) for c in digits.lstrip("0")]
    while ds and ds[-1] == 0:
        ds.pop()
        e += 1
    if not ds:
        return {"t": "num", "neg": False, "d": [], "e": 0}
    return {"t": "num", "neg": neg, "d": ds, "e": e}


def Int(n):
    return Num(n < 0, str(abs(n)), 0)


def key_lt(a, b):
    return (len(a), a) < (len(b), b)


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.names = ["a", "b", "c", "d", "key", "name", "x1", "ab", "ba", "abc"]
        self.long = 0       # how many very long strings are still to be made

    # ---------------------------------------------------------------- basics
    def p(self, x):
        return self.r.random() < x

    def pick(self, xs):
        return self.r.choice(xs)

    def weighted(self, pairs):
        return self.r.choices([a for a, _ in pairs], [w for _, w in pairs])[0]

    def size(self, big):
        """A small size most of the time, up to big."""
        k = self.weighted([(0, 8), (1, 16), (2, 18), (3, 14), (4, 8), (8, 6), (16, 3), (40, 2)])
        return min(big, self.r.randint(k // 2, k) if k > 4 else k)

    # --------------------------------------------------------------- strings
    def char(self):
        k = self.r.random()
        if k < 0.5:
            return self.pick("abcdeXYZ019 _-.")
        if k < 0.62:
            return self.pick('"\\/\b\f\n\r\t')
        if k < 0.72:
            return chr(self.r.randint(0, 31))
        if k < 0.76:
            return self.pick("\x7f\x80\x85\xa0\u2028\u2029\ufeff")
        if k < 0.84:
            return chr(self.r.randint(0x80, 0x7ff))
        if k < 0.92:
            c = self.r.randint(0x800, 0xffff)
            return chr(c) if not 0xd800 <= c <= 0xdfff else "\u4e2d"
        return chr(self.r.randint(0x10000, 0x10ffff)) if self.p(0.7) else self.pick("\U0001f600\U0010ffff\U00010000")

    def very_long(self, sizes):
        """A string of about one of these sizes in bytes."""
        n = self.pick(sizes) + self.pick([0, 0, 0, 1, 2, 17])
        self.long -= 1
        c = self.pick(["x", "x", "yz", "\u00e9", "\u4e2d"])
        out = (c * (n // len(c.encode()) + 1))[:n // len(c.encode())] + "z" * (n % len(c.encode()))
        if len(c.encode()) == 1 and self.p(0.6):
            # a few bytes that need an escape, some of them far back
            out = list(out)
            for _ in range(self.r.randint(1, 6)):
                i = self.pick([self.r.randrange(len(out)), len(out) - 1 - self.r.randrange(min(len(out), 2000)), len(out) - 1])
                out[i] = self.pick('"\\/\b\n\x01\x1f')
            out = "".join(out)
        return out

    def far(self):
        """A string of more than 65536 bytes, with bytes that need an escape on both sides of that."""
        out = ["x"] * self.r.randint(65600, 71000)
        for i in [self.r.randint(65537, len(out) - 1)] + [self.pick([0, 65534, 65535, 65536, 65537, len(out) - 1, self.r.randrange(len(out))]) for _ in range(self.r.randint(0, 4))]:
            out[i] = self.pick('"\\/\b\n\x01\x1f')
        return "".join(out)

    def string(self, long=True):
        if self.long > 0 and long and self.p(0.5):
            return self.very_long(LONG)
        k = self.r.random()
        if k < 0.12:
            return ""
        if k < 0.75 or not long:
            return "".join(self.char() for _ in range(self.r.randint(1, 8)))
        if k < 0.9:
            return "".join(self.char() for _ in range(self.r.randint(9, 40)))
        # bytes around the boundary of one length byte, and some more
        n = self.pick([126, 127, 128, 129, 130, 200, 255, 256, 257, 300])
        head = "".join(self.char() for _ in range(self.r.randint(0, 6)))
        return head + self.pick("ab\n\"") * max(0, n - len(head.encode()))

    def escapes(self):
        """A key that can be written between quotes in a path, backslashes and all."""
        return "".join(self.pick(["a", "b", "\u00e9", " "] + ["\\" + c for c in "bfnrt\"/\\"]) for _ in range(self.r.randint(1, 5)))

    def key(self):
        if self.long > 0 and self.p(0.15):
            return self.very_long(LONG_KEY)
        k = self.r.random()
        if k < 0.55:
            return self.pick(self.names)
        if k < 0.60:
            return ""
        if k < 0.80:
            return "".join(self.pick("ab") for _ in range(self.r.randint(1, 6)))
        if k < 0.86:
            return self.pick(self.names) + self.pick(["", "1", "\u00e9", "\x00", "z", "\u4e2d"])
        if k < 0.95:
            return self.string(long=False)
        if k < 0.97:
            return self.escapes()
        return self.pick("kq") * self.pick([100, 127, 128, 255, 256, 257, 300]) + self.pick(["", "a", "b"])

    # --------------------------------------------------------------- numbers
    def number(self):
        k = self.r.random()
        neg = self.p(0.35)
        if k < 0.25:
            return Num(neg, str(self.r.randint(0, 20)), 0)
        if k < 0.45:
            n = self.pick([0, 1, 9, 10, 99, 100, 127, 128, 255, 256, 257, 1000, 32767, 32768, 65535, 65536, 65537,
                           2**24 - 1, 2**24, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**63 - 1, 2**63, 2**64 - 1, 2**64,
                           10**37, 10**38 - 1, 2**120, 2**126])
            return Num(neg, str(n), 0)
        if k < 0.60:
            return Num(neg, str(self.r.randint(0, 99999)), -self.r.randint(0, 7))
        if k < 0.85:
            n = self.r.randint(1, 38)
            ds = str(self.r.randint(1, 9)) + "".join(str(self.r.randint(0, 9)) for _ in range(n - 1))
            # value 0.d * 10^m with -130 < m <= 126
            m = self.pick([self.r.randint(-129, 126), self.r.randint(-5, 45)])
            return Num(neg, ds, m - n) if -(m - n) <= 167 else Num(neg, ds[:1], 0)
        m = self.pick([126, 125, -129, -128, 0, 1, -1, 38, 39, -38])
        ds = self.pick(["1", "9", "99", "5", "123456789012345678901234567890", "9" * 38])
        e = m - len(ds)
        return Num(neg, ds, e) if -e <= 167 else Num(neg, "1", m - 1)

    def number_text(self):
        """Any JSON number text."""
        k = self.r.random()
        sg = "-" if self.p(0.3) else ""
        if k < 0.3:
            return sg + str(self.r.randint(0, 300))
        if k < 0.5:
            return self.spell(self.number())
        if k < 0.6:
            return sg + self.pick(["0", "0.0", "0e5", "0E-7", "0.000e+10", "1e2", "10E1", "100.00", "1.50", "0.10", "12e-1"])
        if k < 0.66:
            # what decides the value stands far back
            z = self.pick([40, 90, 120, 126, 127, 128, 129, 150, 200, 240])
            ds = self.pick("123456789") + "".join(self.pick("0123456789") for _ in range(self.pick([0, 0, 1, 7, 37])))
            m = self.pick([-129, -128, 125, 126, 0, 1, -1, self.r.randint(-130, 127)])
            j = self.r.random()
            if j < 0.4:
                return sg + "0." + "0" * z + ds + "e" + str(z + m)
            if j < 0.7:
                return sg + ds + "0" * z + "e" + str(m - z)
            if j < 0.85:
                return sg + ds + "." + "0" * z + self.pick(["", "1", "e5", "e-7", "7E2"])
            return sg + self.pick(["0", "0." + "0" * z]) + "e" + self.pick(["", "-"]) + "0" * self.pick([0, 1, z]) + str(self.r.randint(0, 999))
        n = self.r.randint(1, 45)
        if self.p(0.3):
            n = self.pick([37, 38, 39, 40, 41])
        ds = "".join(str(self.r.randint(0, 9)) for _ in range(n))
        if self.p(0.3):
            ds = self.pick("19") + "9" * (n - 1)
        if self.p(0.3) and n > 37:
            ds = ds[:38] + self.pick(["5", "4", "49", "50", "500", "6", "9"])
        ds = ds.lstrip("0") or "0"
        out = ds
        if self.p(0.5):
            c = self.r.randint(0, len(ds))
            out = (ds[:c].lstrip("0") or "0") + "." + (ds[c:] or "0")
        if self.p(0.5):
            out += self.pick("eE") + self.pick(["", "+", "-"]) + self.pick(["", "0", "00"]) + \
                str(self.pick([self.r.randint(0, 9), self.r.randint(0, 125), self.r.randint(80, 131)]))
        return sg + out

    def big_number_text(self):
        """Around the overflow and underflow limits."""
        m = self.pick([124, 125, 126, 127, 128, 130, 200, 999, 1000, 9999, 99999999999])
        if self.p(0.3):
            m = -self.pick([128, 129, 130, 131, 150, 999, 1000, 12345])
        ds = self.pick(["1", "9", "5", "99", "1" * 38, "9" * 38, "9" * 39, "9" * 38 + "4", "123", "9" * 60])
        k = self.r.randint(0, len(ds))
        out = (ds[:k] or "0") + ("." + (ds[k:] or "0") if self.p(0.7) or k < len(ds) else "")
        # value 0.ds * 10^(k + e)
        e = m - k
        if self.p(0.15) and 0 < m < 200:
            return ("-" if self.p(0.4) else "") + ds + "0" * max(0, m - len(ds))
        return ("-" if self.p(0.4) else "") + out + self.pick("eE") + ("+" if e >= 0 and self.p(0.3) else "") + str(e)

    def spell(self, v):
        """A JSON text of a number value."""
        ds = "".join(map(str, v["d"])) or "0"
        e = v["e"]
        sg = "-" if v["neg"] else ""
        k = self.r.random()
        if k < 0.3 and 0 <= e <= 60:
            return sg + ds + "0" * e
        if k < 0.6 and -60 <= e < 0:
            if -e < len(ds):
                return sg + ds[:e] + "." + ds[e:]
            return sg + "0." + "0" * (-e - len(ds)) + ds
        c = self.r.randint(1, len(ds))
        z = self.pick(["", "", "0", "00"])
        out = ds[:c] + ("." + ds[c:] + z if c < len(ds) else ("." + "0" + z if self.p(0.3) else ""))
        x = e + len(ds) - c
        return sg + out + self.pick("eE") + (self.pick(["", "+"]) if x >= 0 else "") + str(x)

    # ---------------------------------------------------------------- values
    def scalar(self, long=True):
        k = self.r.random()
        if k < 0.15:
            return NULL
        if k < 0.32:
            return Bool(self.p(0.5))
        if k < 0.66:
            return self.number()
        return Str(self.string(long))

    def value(self, depth, big=40, cont=0.6):
        """A value of at most this depth; object members in arbitrary order, keys distinct."""
        if depth == 0 or not self.p(cont):
            return self.scalar()
        n = self.size(big)
        if self.p(0.07):
            # All children the same, or all but one or two.
            xs = [self.value(depth - 1, 3, 0.5)] * n
            for _ in range(self.pick([0, 0, 1, 2])):
                if n:
                    xs[self.r.randrange(n)] = self.value(depth - 1, 3, 0.5)
            return {"t": "arr", "a": xs} if self.p(0.7) else {"t": "obj", "o": [{"k": B("k%d" % i), "v": x} for i, x in enumerate(xs)]}
        if self.p(0.5):
            return {"t": "arr", "a": [self.value(depth - 1, max(2, big // 3), cont * 0.8) for _ in range(n)]}
        ms, seen = [], set()
        for _ in range(n):
            k = self.key()
            if k in seen:
                k = k + self.pick("abcxyz")
            if k in seen:
                continue
            seen.add(k)
            ms.append({"k": B(k), "v": self.value(depth - 1, max(2, big // 3), cont * 0.8)})
        return {"t": "obj", "o": ms}

    def chain(self, depth, leaf=None, siblings=0.0):
        """Nested containers of the given depth, with finished siblings here and there."""
        v = leaf if leaf is not None else self.scalar(False)
        inner = depth > 0 and leaf is None and self.p(0.5)
        for i in range(depth):
            xs = [v]
            if i == 0 and inner:
                xs = []
            while self.p(siblings):
                xs.insert(self.r.randint(0, len(xs)), self.value(2, 3) if self.p(0.5) else self.chain(self.r.randint(1, 4)))
            if self.p(0.5):
                v = {"t": "arr", "a": xs}
            else:
                v = {"t": "obj", "o": [{"k": B("k" * (j + 1)), "v": x} for j, x in enumerate(xs)]}
                self.r.shuffle(v["o"])
        return v

    def kids(self, v):
        return v["a"] if v["t"] == "arr" else [m["v"] for m in self.sorted(v)] if v["t"] == "obj" else []

    def sorted(self, v):
        """Members as stored: in key order, the last of equal keys."""
        d = {}
        for m in v["o"]:
            d[bytes(m["k"])] = m["v"]
        return [{"k": list(k), "v": d[k]} for k in sorted(d, key=lambda k: (len(k), k))]

    def positions(self, v, cur=()):
        out = [list(cur)]
        for i, x in enumerate(self.kids(v)):
            out += self.positions(x, cur + (i,))
        return out

    def at(self, v, pos):
        for i in pos:
            v = self.kids(v)[i]
        return v

    def containers(self, v):
        return [p for p in self.positions(v) if self.at(v, p)["t"] in ("arr", "obj") or p == []]

    # ------------------------------------------------------------ JSON texts
    def ws(self, x=0.15):
        return "".join(self.pick(" \n\r\t") for _ in range(self.r.randint(1, 3))) if self.p(x) else ""

    def quote(self, s):
        out = ['"']
        for c in s:
            o = ord(c)
            k = self.r.random()
            if c in '"\\' or o < 32:
                short = {8: "\\b", 9: "\\t", 10: "\\n", 12: "\\f", 13: "\\r", 34: '\\"', 92: "\\\\"}.get(o)
                out.append(short if short and k < 0.7 else self.hex(o))
            elif c == "/":
                out.append(self.pick(["/", "\\/", self.hex(o)]))
            elif k < 0.06:
                if o < 0x10000:
                    out.append(self.hex(o))
                else:
                    out.append(self.hex(0xd800 + ((o - 0x10000) >> 10)) + self.hex(0xdc00 + ((o - 0x10000) & 0x3ff)))
            else:
                out.append(c)
        return "".join(out) + '"'

    def hex(self, o):
        h = "%04x" % o
        return "\\u" + "".join(c.upper() if self.p(0.5) else c for c in h)

    def text(self, v, ws=0.1, dup=0.0):
        t = v["t"]
        w = lambda: self.ws(ws)
        if t == "null":
            return "null"
        if t == "bool":
            return "true" if v["b"] else "false"
        if t == "raw":
            return v["x"]
        if t == "num":
            return self.spell(v)
        if t == "str":
            return self.quote(bytes(v["s"]).decode())
        if t == "arr":
            return "[" + w() + ",".join(w() + self.text(x, ws, dup) + w() for x in v["a"]) + "]"
        parts = []
        for m in v["o"]:
            k = self.quote(bytes(m["k"]).decode())
            parts.append(w() + k + w() + ":" + w() + self.text(m["v"], ws, dup) + w())
            if self.p(dup):
                parts.insert(self.r.randint(0, len(parts)),
                             self.quote(bytes(m["k"]).decode()) + ":" + self.text(self.value(2, 3), 0, 0))
        return "{" + w() + ",".join(parts) + "}"

    def renumber(self, v, f):
        """Replaces some numbers by raw number texts."""
        if v["t"] == "num" and self.p(0.5):
            return {"t": "raw", "x": f()}
        if v["t"] == "arr":
            return {"t": "arr", "a": [self.renumber(x, f) for x in v["a"]]}
        if v["t"] == "obj":
            return {"t": "obj", "o": [{"k": m["k"], "v": self.renumber(m["v"], f)} for m in v["o"]]}
        return v

    def json_text(self, depth=None, big=40):
        v = self.value(self.pick([0, 1, 2, 3, 4]) if depth is None else depth, big, 0.85)
        v = self.renumber(v, self.number_text)
        return self.ws() + self.text(v, self.pick([0, 0.1, 0.3]), self.pick([0, 0, 0.3])) + self.ws()

    def break_text(self, t):
        """Damages a text in one place (it may happen to stay valid)."""
        k = self.r.random()
        if not t:
            return t
        i = self.r.randrange(len(t))
        if k < 0.25:
            return t[:i] + t[i + 1:]
        if k < 0.5:
            return t[:i] + self.pick(list('{}[],:"\\0123456789-+.eEntf \n\x00\x1f\x7fu') + ["\\u12", "\\ud800", "\\x", "//", "NaN", "'", "\ufeff", "\u00a0", "\f"]) + t[i:]
        if k < 0.7:
            return t[:i]
        if k < 0.85:
            return t + self.pick(["]", "}", ",", " 1", "x", "\x00", '"', "null", "[]", " ", "\n"])
        return t[:i] + self.pick(list('{}[],:"0-. \t')) + t[i + 1:]

    BAD = ["", " ", "\ufeff1", "nul", "nulll", "tru", "True", "falsee", "+1", "01", "-01", "1.", ".5", "1.e1", "1e", "1e+", "--1",
           "-", "0x10", "1_000", "Infinity", "-Infinity", "NaN", "'a'", '"', '"a', '"\\', '"\\u', '"\\u12', '"\\u12G4"',
           '"\\ud800"', '"\\udc00"', '"\\ud800\\ud800"', '"\\ud800x"', '"\x00"', '"\n"', '"\x1f"', '"\\x"', '"\\0"', "[", "]", "{",
           "}", "[1", "[1,", "[1,]", "[,1]", "[1 2]", "[1,,2]", "{\"a\"}", "{\"a\":}", "{\"a\":1", "{\"a\":1,", "{\"a\":1,}",
           "{a:1}", "{1:2}", "{\"a\" 1}", "{\"a\":1 \"b\":2}", "{,}", "[}", "{]", "[1}", "1 2", "[] []", "{} x", "null null",
           "/*c*/1", "1//c", "[1;2]", "\u00a01", "1\x00", "1,", "\"a\"\"b\"", "1 1e999", "[1e999", "{\"a\":1e999,}"]

    # ------------------------------------------------------------------- ops
    def pre(self):
        return [self.r.randint(0, 255) for _ in range(self.weighted([(0, 4), (1, 2), (3, 2), (7, 2), (100, 1), (300, 1)]))]

    def dest(self, reg, own=0.4):
        own = self.p(own)
        return {"via": "own" if own else "to", "pre": [] if own else self.pre(),
                "cap": self.pick([0, 0, 1, 5, 16, 64, 200, 2000]), "dirty": self.p(0.5), "reg": reg}

    def op_parse(self, text, reg, via=None):
        o = {"op": "parse", "text": B(text)}
        o.update(self.dest(reg))
        if via is None and self.p(0.25):
            via = "val"
        if via:
            o["via"] = via
            if via != "to":
                o["pre"] = []
        return o

    def pad(self, v):
        if v["t"] != "num" or not v["d"]:
            return 0
        room = min(38 - len(v["d"]), 167 + v["e"])
        if room <= 0:
            return 0
        # a value above 10^38 can only be written with a negative scale, always allowed here
        return self.weighted([(0, 6), (min(1, room), 1), (self.r.randint(0, room), 2)])

    def op_scalar(self, v, reg, pad=None):
        o = {"op": "scalar", "val": v, "pad": self.pad(v) if pad is None else pad}
        o.update(self.dest(reg))
        return o

    def order(self, ms):
        """A push order and whether to declare it sorted."""
        s = sorted(ms, key=lambda m: (len(m["k"]), m["k"]))
        k = self.r.random()
        if k < 0.3:
            return s, True
        if k < 0.4:
            return s, False
        if k < 0.55:
            return s[::-1], False
        ms = list(ms)
        self.r.shuffle(ms)
        return ms, False

    def build(self, v, reg, faults=0.0, pads=True, dest=None):
        """A builder session making the container v; faults: chance of refused calls along the way."""
        ops = []
        self.level(v, ops, None, reg, faults, pads, dest)
        return ops

    def level(self, v, ops, key, reg, faults, pads, dest=None):
        if v["t"] == "obj":
            items, srt = self.order(v["o"])
        else:
            items, srt = [{"k": [], "v": x} for x in v["a"]], False
        n = len(items)
        first = {"kind": v["t"], "n": n, "sorted": srt}
        if key is None:
            d = dict(dest) if dest else self.dest(reg)
            d.pop("reg")
            ops.append({"op": "b_root", **first, **d})
        else:
            ops.append({"op": "b_open", "key": key, **first})
        for i, m in enumerate(items):
            if faults and self.p(faults):
                self.fault(v, ops, i < n)
            if m["v"]["t"] in ("arr", "obj"):
                self.level(m["v"], ops, m["k"], reg, faults, pads)
            else:
                ops.append({"op": "b_push", "key": m["k"], "val": m["v"], "pad": self.pad(m["v"]) if pads else 0})
        if faults and self.p(faults):
            self.fault(v, ops, False)
        ops.append({"op": "b_fin", "reg": reg})

    def fault(self, v, ops, room):
        """A call that should be refused (or, rarely, an abandonment)."""
        k = self.r.random()
        obj = v["t"] == "obj"
        key = B(self.key()) if obj else []
        if not room and k < 0.75:
            if self.p(0.5):
                ops.append({"op": "b_push", "key": key, "val": self.scalar(), "pad": 0})
            else:
                ops.append({"op": "b_open", "key": key, "kind": self.pick(["arr", "obj"]), "n": self.r.randint(0, 2), "sorted": self.p(0.3)})
        elif obj and k < 0.85:
            ops.append({"op": "b_push" if self.p(0.6) else "b_open", "key": [], "kx": self.pick([65536, 65537, 66000]),
                        "val": self.scalar(False), "pad": 0, "kind": self.pick(["arr", "obj"]), "n": 0, "sorted": False})

    def wild_build(self, reg):
        """An arbitrary call history on builders."""
        ops = [{"op": "b_root", "kind": self.pick(["arr", "obj"]), "n": self.r.randint(0, 4), "sorted": False, **self.dest(reg)}]
        ops[0].pop("reg")
        depth, kinds = 1, [ops[0]["kind"]]
        counts = [0]
        want = [ops[0]["n"]]
        keys = [set()]
        for _ in range(self.r.randint(0, 24)):
            k = self.r.random()
            full = counts[-1] >= want[-1]
            key = []
            if kinds[-1] == "obj":
                for _ in range(20):
                    key = B(self.key())
                    if tuple(key) not in keys[-1]:
                        break
                    key = B(self.key() + "~%d" % self.r.randint(0, 999))
            if k < (0.15 if full else 0.55):
                ops.append({"op": "b_push", "key": key, "val": self.scalar(False), "pad": 0})
                counts[-1] += 0 if full else 1
                keys[-1].add(tuple(key))
            elif k < (0.25 if full else 0.85):
                kd = self.pick(["arr", "obj"])
                cnt = self.r.randint(0, 3)
                ops.append({"op": "b_open", "key": key, "kind": kd, "n": cnt, "sorted": False})
                if not full:
                    keys[-1].add(tuple(key))
                    kinds.append(kd)
                    want.append(cnt)
                    counts.append(0)
                    keys.append(set())
                    depth += 1
            else:
                ok = full or self.p(0.25)
                if ok and not self.p(0.1):
                    ops.append({"op": "b_fin", "reg": reg})
                elif self.p(0.5):
                    ops.append({"op": "b_drop"})
                else:
                    continue
                kinds.pop(); want.pop(); counts.pop(); keys.pop()
                if not kinds:
                    return ops
                if full:
                    counts[-1] += 1
        while kinds:
            if counts[-1] < want[-1] and self.p(0.9):
                key = B("z%d" % self.r.randint(0, 9999)) if kinds[-1] == "obj" else []
                ops.append({"op": "b_push", "key": key, "val": self.scalar(False), "pad": 0})
                counts[-1] += 1
                continue
            ops.append({"op": "b_fin", "reg": reg})
            kinds.pop(); want.pop(); counts.pop(); keys.pop()
            if counts:
                counts[-1] += 1
        return ops

    def make(self, v, reg, faults=0.0):
        """Any route to a document of value v."""
        if v["t"] in ("arr", "obj"):
            return self.build(v, reg, faults) if self.p(0.5) else [self.op_parse(self.text(v, self.pick([0, 0.1])), reg)]
        return [self.op_scalar(v, reg)] if self.p(0.7) else [self.op_parse(self.text(v), reg)]

    def doc(self, reg, depth=None, big=40, cont=0.95):
        v = self.value(self.pick([1, 2, 2, 3, 3, 4]) if depth is None else depth, big, cont)
        return v, self.make(v, reg)

    # ----------------------------------------------------------------- paths
    def fill(self, x):
        return "".join(self.pick(" \t\n\r\f") for _ in range(self.r.randint(1, 2))) if self.p(x) else ""

    def index_text(self, n, w):
        k = self.r.random()
        i = self.pick([0, 0, 1, 1, 2, 3, n - 1, n, n + 1, max(0, n - 2), self.r.randint(0, n + 3)])
        i = max(0, i)
        if k < 0.55:
            return self.pick(["", "", "", "0", "00"]) + str(i)
        if k < 0.72:
            return "last"
        return "last" + self.fill(w) + "-" + self.fill(w) + str(i)

    def key_text(self, k, w=0.0):
        if k and k[0].isascii() and k[0].isalpha() and k.isascii() and k.isalnum() and not self.p(0.15):
            return k
        # the key of a quoted step is matched as written
        if not re.fullmatch(r'([^"\\]|\\[bfnrt"/\\])*', k, re.S):
            return None
        return '"' + k + '"'

    def step(self, v, keys, n, w, kinds=None):
        f = lambda: self.fill(w)
        k = self.weighted(kinds or [("key", 10), ("any", 4), ("desc", 4), ("all", 4), ("one", 6), ("span", 4), ("list", 4)])
        if k in ("key", "desc"):
            for _ in range(10):
                t = self.key_text(self.pick(keys) if keys and self.p(0.85) else self.key())
                if t is not None:
                    break
            else:
                t = "a"
            return ("." if k == "key" else "..") + f() + t + f()
        if k == "any":
            return "." + f() + "*" + f()
        if k == "all":
            return "[" + f() + "*" + f() + "]" + f()
        if k == "one":
            return "[" + f() + self.index_text(n, w) + f() + "]" + f()
        span = lambda: self.index_text(n, w) + self.pick([" ", "  ", "\t"]) + "to" + self.pick([" ", "\n ", " "]) + self.index_text(n, w)
        if k == "span":
            return "[" + f() + span() + f() + "]" + f()
        return "[" + ",".join(f() + (span() if self.p(0.4) else self.index_text(n, w)) + f() for _ in range(self.r.randint(2, 5))) + "]" + f()

    def all_keys(self, v):
        out = []
        if v["t"] == "obj":
            out += [bytes(m["k"]).decode() for m in v["o"]]
        for x in self.kids(v):
            out += self.all_keys(x)
        return out

    def path(self, v, method=0.0, steps=None, w=0.05, kinds=None, valid=True):
        """A path leaning on the shape of v: mostly follows it down."""
        out = self.pick(["$", "$", "$", " $", "$ "])
        cur = v
        deep = self.all_keys(v)
        for _ in range(self.r.choice([0, 1, 1, 2, 2, 2, 3, 3, 4, 5]) if steps is None else steps):
            follow = self.p(0.8)
            keys = [bytes(m["k"]).decode() for m in cur["o"]] if cur["t"] == "obj" and follow else deep
            n = len(cur["a"]) if cur["t"] == "arr" else 1
            if kinds:
                ks = kinds
            elif cur["t"] == "obj":
                ks = [("key", 10), ("any", 5), ("desc", 4), ("all", 1), ("one", 2), ("span", 2), ("list", 2)]
            elif cur["t"] == "arr":
                ks = [("key", 4), ("any", 3), ("desc", 3), ("all", 6), ("one", 6), ("span", 5), ("list", 5)]
            else:
                ks = [("key", 2), ("any", 2), ("desc", 1), ("all", 4), ("one", 5), ("span", 4), ("list", 4)]
            st = self.step(cur, keys, n, w, ks)
            out += st
            ch = self.kids(cur)
            if ch and self.p(0.85):
                if st.lstrip(".").startswith(('"',)) or (st[0] == "." and st[1:2].isalpha()):
                    name = st.strip(". \t\n\r\f").strip('"')
                    hit = [m["v"] for m in cur["o"] if bytes(m["k"]).decode() == name] if cur["t"] == "obj" else []
                    cur = hit[0] if hit else self.pick(ch)
                else:
                    cur = self.pick(ch)
        if self.p(method):
            f = lambda: self.fill(w)
            out += "." + f() + self.pick(["count", "size", "type"]) + f() + "(" + f() + ")" + f()
        return out

    def steps_alone(self):
        """A valid path unrelated to a document."""
        w = self.pick([0, 0, 0.3, 0.7])
        out = self.fill(0.1).replace("\t", " ").replace("\n", " ").replace("\r", " ").replace("\f", " ") + "$" + self.pick(["", "", " ", "  "])
        for _ in range(self.r.choice([0, 1, 1, 2, 3, 4, 6])):
            out += self.step(NULL, self.names, self.pick([1, 5, 1000, 2147483640]), w)
        if self.p(0.25):
            f = lambda: self.fill(w)
            out += "." + f() + self.pick(["count", "size", "type", "count", "Count", "sizes", "typ", "length"]) + f() + "(" + f() + ")" + f()
        return out

    PATH_BITS = ["$", ".", "..", "...", "*", "[", "]", "(", ")", "()", '"', "'", "\\", "\\n", "\\b", "\\f", "\\r", "\\t", "\\/", "\\\\", '\\"', "\\a", "\\'", "\\u0041", "\\x", ",", "-", "to", "last",
                 "last-", "- 1", "1", "0", "2147483647", "2147483648", "4294967296", "99999999999999999999", " ", "\t", "\n", "\u00a0",
                 "a", "key", "é", "@", "_", "count()", ".size()", ".type()", "[*]", "[0]", "[1 to 2]", ".a", ".*", "..b", "\x00", "\x0b",
                 "last - 2147483648", "1to2", "1 to2", "tolast", "lastto1", "[last to 0,1]", "中", "\U0001f600", "+1", "-1", "?"]

    def wrapped(self):
        """A number that is small again when its high bits are lost."""
        return str(self.pick([1, 1, 1, 2, 3, 5, 10]) * 2 ** self.pick([31, 32, 63, 64, 64, 64, 96, 128]) + self.pick([0, 0, 1, 2, 100, 2 ** 31 - 1]))

    def break_path(self, t):
        k = self.r.random()
        runs = list(re.finditer(r"[0-9]+", t))
        if runs and k < 0.3:
            m = self.pick(runs)
            return t[:m.start()] + self.pick(["", "", "0", "000"]) + self.wrapped() + t[m.end():]
        i = self.r.randint(0, len(t))
        if k < 0.4:
            return t[:i] + self.pick(self.PATH_BITS) + t[i:]
        if k < 0.6 and t:
            i = self.r.randrange(len(t))
            return t[:i] + t[i + 1:]
        if k < 0.75:
            return t[:i]
        if k < 0.9:
            return t[:i] + self.pick(self.PATH_BITS) + t[min(len(t), i + 1):]
        return "".join(self.pick(self.PATH_BITS) for _ in range(self.r.randint(1, 6)))

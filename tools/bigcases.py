"""Large documents (specs/Big.tla): sizes around every limit and every width of the format."""
import random

from gen import B

MAXS = (1 << 28) - 1
EDGE = [0, 1, 126, 127, 128, 129, 255, 256, 16382, 16383, 16384, 16385, 32767, 32768, 65535, 65536, 65537, 2097151, 2097152, 2097153, 16777215, 16777216]
# lengths with every shape of length prefix: a group of seven bits that is all zeros or all ones beside others
SHAPES = [0, 127, 128, 129, 255, 256, 16255, 16256, 16383, 16384, 16511, 16512, 65535, 65536, 2080767, 2080768, 2097151, 2097152, 2097279, 2097280, 2113536, 4194304]
KEY_EDGE = [0, 1, 127, 128, 255, 256, 32767, 32768, 65533, 65534, 65535]
KEY_BAD = [65536, 65537, 65600, 131071, 131072, 131077]


class Ropes:
    def __init__(self, r, hows):
        self.r, self.hows = r, hows

    def runs(self, n):
        """A rope of n letters."""
        out, last = [], 0
        for k in range(self.r.choice([1, 1, 2, 3])):
            if n == 0:
                break
            c = self.r.choice([x for x in range(97, 123) if x != last])
            m = n if k == 2 else self.r.randint(1, n)
            out.append([c, m])
            last, n = c, n - m
        if n:
            out.append([65, n])
        if out and out[0][1] > 5 and self.r.random() < 0.4:
            # as many bytes, but fewer characters
            ch = self.r.choice(["\u00e9", "\u4e2d", "\U0001f600"]).encode()
            head = self.r.randint(1, out[0][1] - len(ch))
            out[:1] = [[out[0][0], head]] + [[c, 1] for c in ch] + ([[out[0][0], out[0][1] - head - len(ch)]] if out[0][1] > head + len(ch) else [])
            if out[-1][0] >= 128:
                out[-len(ch) - 1][1] -= 1
                out.append([66, 1])
                out = [q for q in out if q[1]]
        return out

    def string(self, n):
        return {"t": "str", "r": self.runs(n)}

    def small(self):
        return self.r.choice([{"t": "null"}, {"t": "bool", "b": True}, self.string(2), {"t": "arr", "n": 0, "a": []},
                              {"t": "obj", "n": 1, "o": [{"k": [[97, 1]], "v": {"t": "bool", "b": False}}]},
                              {"t": "num", "neg": False, "d": [7], "e": 0} if self.r.random() < 0.2 else {"t": "null"}])

    def arr(self, xs, n=None):
        return {"t": "arr", "n": len(xs) if n is None else n, "a": xs}

    def obj(self, ks, xs, n=None):
        ms = sorted(zip(ks, xs), key=lambda m: flat(m[0]))
        if self.r.random() < 0.4:
            self.r.shuffle(ms)
        return {"t": "obj", "n": len(xs) if n is None else n, "o": [{"k": k, "v": x} for k, x in ms]}

    def keys(self, lens):
        """Distinct keys of these lengths."""
        out = []
        for n in lens:
            k = self.runs(n)
            while any(flat(k) == flat(o) for o in out):
                k = self.runs(max(1, n))
                if len(k) > 1 or self.r.random() < 0.1:
                    k = [[self.r.randint(97, 122), max(1, n)]]
            out.append(k)
        return out

    def call(self, val, how=None, via=None, pre=None):
        how = how or self.r.choice(self.hows)
        if how in ("json", "val"):
            val = textual(val)
        via = via or self.r.choice(["own", "to"])
        if how in ("val",):
            via = "own"
        if how == "try":
            via = "to"
        pre = B("") if via == "own" else pre if pre is not None else self.r.choice([B(""), B("x"), B("before"), [0, 255, 3]])
        return {"op": "big", "how": how, "via": via, "pre": pre, "val": val, "rb": self.r.random() < 0.6, "also": []}

    # ------------------------------------------------------------ further calls
    def alsos(self, prop, v):
        """Calls to make on the document of v, in which nothing is refused."""
        r = self.r
        spots = positions(v)
        key = lambda: bytes(flat(r.choice([k for k in keys_of(v) if 0 < size(k) < 300 and flat(k).isalpha()] or [[[107, 1]]]))).decode()
        step = lambda: r.choice(["[%d]" % r.randint(0, 4), "[last]", "[last-1]", "[0 to last]", "[last to 1,0]", "[*]", ".*", "." + key(), ".." + key()])
        path = lambda: "$" + "".join(step() for _ in range(r.choice([1, 1, 2, 3])))
        out = []
        for _ in range(3):
            if prop == "P03":
                out.append({"op": "fmt", "pretty": r.random() < 0.7})
            elif prop == "P04":
                out.append({"op": "rt", "via": r.choice(["bincode", "json", "compact", "pretty"])})
            elif prop == "P13":
                out.append({"op": "eq", "val": textual(v if r.random() < 0.3 else self.twin(v))})
            elif prop == "P22":
                out.append({"op": "ext", "pos": r.choice(spots), "via": r.choice(["own", "try"])})
            elif prop == "P23":
                out.append({"op": "root", "pos": r.choice(spots)})
            elif prop == "P17":
                out.append({"op": "exists", "path": B(path())})
            elif prop in ("P15", "P16", "P18", "P19", "P20"):
                m = r.choice([".count()", ".size()", ".type()"]) if prop == "P19" or r.random() < 0.1 else ""
                out.append({"op": "query", "path": B(path() + m), "wrap": r.random() < 0.85, "rb": r.random() < 0.5})
        return out

    def twin(self, v):
        """The same but for one byte, or length, somewhere."""
        if v["t"] == "arr" and v["a"]:
            i = self.r.randrange(len(v["a"]))
            return self.arr([self.twin(x) if j == i else x for j, x in enumerate(v["a"])])
        if v["t"] == "obj" and v["o"]:
            i = self.r.randrange(len(v["o"]))
            ms = [dict(m) for m in v["o"]]
            k = self.changed(ms[i]["k"])
            if self.r.random() < 0.3 and size(k) <= 65535 and all(flat(m["k"]) != flat(k) for m in ms):
                ms[i]["k"] = k
            else:
                ms[i]["v"] = self.twin(ms[i]["v"])
            return {"t": "obj", "n": len(ms), "o": ms}
        if v["t"] == "str":
            return {"t": "str", "r": self.changed(v["r"])}
        return {"t": "bool", "b": not v["b"]} if v["t"] == "bool" else {"t": "bool", "b": True}

    def changed(self, runs):
        n = size(runs)
        if n == 0:
            return [[122, 1]]
        k = self.r.choice(["longer", "shorter", "first", "last"])
        runs = [list(q) for q in runs]
        if k == "longer":
            runs[-1][1] += 1
        elif k == "shorter":
            runs[-1][1] -= 1
        elif k == "first":
            runs[0][1] -= 1
            runs = [[90, 1]] + runs
        else:
            runs[-1][1] -= 1
            runs = runs + [[90, 1]]
        return [q for q in runs if q[1]]

    def refuses(self, val):
        """Declares for each container what will be accepted."""
        if val["t"] == "arr":
            for x in val["a"]:
                self.refuses(x)
            val["n"] = sum(0 if long(x) else 1 for x in val["a"])
        elif val["t"] == "obj":
            for m in val["o"]:
                self.refuses(m["v"])
            val["n"] = sum(0 if long(m["v"]) or size(m["k"]) > 65535 else 1 for m in val["o"])
        return val

    def case(self):
        r = self.r
        k = r.random()
        if k < 0.30:
            xs = [self.string(r.choice(EDGE)) if r.random() < 0.6 else self.small() for _ in range(r.randint(1, 4))]
            v = self.arr(xs) if r.random() < 0.5 else self.obj(self.keys([r.choice(KEY_EDGE[:7]) for _ in xs]), xs)
            if r.random() < 0.3:
                v = self.arr([self.small(), v, self.small()])
        elif k < 0.60:
            n = r.randint(1, 4)
            v = self.obj(self.keys([r.choice(KEY_EDGE) for _ in range(n)]), [self.small() for _ in range(n)])
            if r.random() < 0.3:
                v = self.obj([[[107, 1]], [[108, 2]]], [v, self.small()])
        elif k < 0.85:
            n = r.randint(1, 4)
            v = self.obj(self.keys([r.choice(KEY_BAD if r.random() < 0.5 else KEY_EDGE) for _ in range(n)]), [self.small() for _ in range(n)])
            if r.random() < 0.4:
                v = self.arr([self.small(), v]) if r.random() < 0.5 else self.obj([[[107, 1]], [[108, 2]]], [v, self.small()])
            self.refuses(v)
        else:
            n = r.choice(EDGE)
            return [self.call(self.string(n), how=r.choice(["scalar", "scalar", "try"]))]
        how = None
        if k >= 0.60:
            how = r.choice([h for h in self.hows if h == "build"] * 3 + self.hows)
        return [self.call(v, how=how)]


def shapes(g, prop):
    """A string of each length, as a document, an element or a member in turn."""
    out = []
    turn = g.r.randrange(3)
    for i, n in enumerate(SHAPES):
        for k in range(3):
            if prop != "P21" and k != (i + turn) % 3 and not (prop == "P23" and k == 0):
                continue
            s = g.string(n)
            if k == 0:
                how = g.r.choice(["scalar", "try"]) if "build" in g.hows else g.r.choice(g.hows)
                out.append([g.call(s, how=how)])
            elif k == 1:
                out.append([g.call(g.arr([g.small(), s, g.small()]))])
            else:
                out.append([g.call(g.obj(g.keys([1, 2]), [s, g.small()]))])
    return out


def refusals(g):
    """A key too long for a member of each kind, first, last or in between."""
    out = []
    kinds = [{"t": "null"}, {"t": "bool", "b": True}, {"t": "num", "neg": True, "d": [7], "e": 3}, g.string(3), g.string(0), g.arr([{"t": "null"}]), g.arr([]),
             g.obj([[[97, 1]]], [g.string(1)])]
    for how in sorted(set(g.hows)):
        for x in kinds:
            k = g.runs(g.r.choice(KEY_BAD))
            others = [[[99, 1]], [[112, 2]]][:g.r.choice([0, 1, 2])]
            v = g.obj([k] + others, [x] + [g.small() for _ in others])
            if g.r.random() < 0.4:
                v = g.arr([g.small(), v]) if g.r.random() < 0.5 else g.obj([[[107, 1]]], [v])
            out.append([g.call(g.refuses(v), how=how)])
    return out


def children(v):
    return v["a"] if v["t"] == "arr" else [m["v"] for m in sorted(v["o"], key=lambda m: (size(m["k"]), flat(m["k"])))] if v["t"] == "obj" else []


def positions(v, cur=()):
    return [list(cur)] + [p for i, x in enumerate(children(v)) for p in positions(x, cur + (i,))]


def keys_of(v):
    return [m["k"] for m in v.get("o", [])] + [k for x in children(v) for k in keys_of(x)]


def whole(v):
    """Whether everything of it is declared, and nothing is refused."""
    if v["t"] == "str":
        return not long(v)
    kids = children(v)
    return v.get("n", 0) == len(kids) and all(size(k) <= 65535 for k in keys_of(v)) and all(whole(x) for x in kids)


def flat(runs):
    return b"".join(bytes([c]) * n for c, n in runs)


def size(runs):
    return sum(n for _, n in runs)


def long(v):
    return v["t"] == "str" and size(v["r"]) > MAXS


def textual(v):
    """The value a JSON text is written from: members in the order of the parser's map."""
    if v["t"] == "arr":
        return {"t": "arr", "n": len(v["a"]), "a": [textual(x) for x in v["a"]]}
    if v["t"] == "obj":
        ms = sorted(v["o"], key=lambda m: flat(m["k"]))
        return {"t": "obj", "n": len(ms), "o": [{"k": m["k"], "v": textual(m["v"])} for m in ms]}
    return v


def huge(r):
    """Strings at the limit of 2^28 - 1 bytes."""
    g = Ropes(r, ["build"])
    S = lambda n: {"t": "str", "r": [[120, n - 1], [121, 1]] if r.random() < 0.3 else [[120, n - 3], [195, 1], [169, 1], [121, 1]]}
    out = []
    for n in (MAXS, MAXS + 1):
        out.append([g.call(S(n), how="scalar", via="to", pre=B("abc"))])
        out.append([g.call(S(n), how="scalar", via="own")])
        out.append([g.call(S(n), how="try")])
        v = g.refuses(g.arr([{"t": "null"}, S(n), {"t": "bool", "b": True}]))
        out.append([g.call(v, how="build", via="to", pre=B("abc"))])
        v = g.refuses(g.obj([[[97, 1]], [[98, 1]]], [S(n), {"t": "null"}]))
        out.append([g.call(v, how="build", via="own")])
        out.append([g.call(g.arr([S(n), {"t": "null"}]), how="json", via="to", pre=B("abc"))])
        out.append([g.call(g.arr([{"t": "obj", "n": 1, "o": [{"k": [[97, 1]], "v": S(n)}]}]), how="json", via="own")])
        out.append([g.call(S(n), how="json", via="to", pre=B("abc"))])
        out.append([g.call(S(n), how="val")])
    for c in out:
        c[0]["rb"] = False
    return out


LEAVES = [{"t": "null"}, {"t": "bool", "b": True}, {"t": "num", "neg": False, "d": [7], "e": 0}, {"t": "str", "s": B("ab")}, {"t": "str", "s": []}]


def fill(r, n, kind=None, how=None, leaf=None, nest=None, d=None, order=None, via=None, qs=True):
    how = how or r.choice(["build", "build", "json", "val"])
    kind = kind or r.choice(["arr", "obj"])
    order = "asc" if how != "build" or kind == "arr" else order or r.choice(["asc", "desc", "stride"])
    d = n if d is None else d
    if d != n and order == "stride":
        order = "desc"
    if how == "build":
        d = min(d, 65535)
        if d != n and order == "stride":
            order = "asc"
    else:
        d = min(n, 65535)
    via = "own" if how == "val" else via or r.choice(["own", "to"])
    op = {"op": "fill", "how": how, "kind": kind, "n": n, "d": d, "leaf": leaf or r.choice(LEAVES), "order": order,
          "sorted": order == "asc" and r.random() < 0.5, "via": via, "pre": B("pre") if via == "to" else [],
          "nest": nest or r.choice(["none", "none", "arr", "obj"]), "idx": sorted({0, 1, n // 2, max(0, n - 1), n, n + 1, 65534, 65535, 65536, 65537})}
    op["qs"] = []
    if op["nest"] == "none" and qs:
        star = "$[*]" if kind == "arr" else "$.*"
        op["qs"] = [{"path": B(star), "sel": "all", "rb": True}]
        if kind == "arr":
            op["qs"] += [{"path": B("$[0 to last,0]"), "sel": "dup", "rb": True}, {"path": B("$[0 to last,0]"), "sel": "dup", "rb": False}]
        op["qs"] += [{"path": B(star + ".count()"), "sel": "count", "rb": r.random() < 0.5}]
        if kind == "arr":
            k = r.choice([2, 2, 3, 5, 17, 40])
            op["qs"] += [{"path": B("$[" + ",".join(["0 to last"] * k) + "].count()"), "sel": "count", "times": k, "rb": r.random() < 0.5}]
        for q in op["qs"]:
            q.setdefault("times", 1)
    return [op]


# What is asked of a large document, for these properties.
ASKED = ["P03", "P04", "P13", "P15", "P16", "P17", "P18", "P19", "P20", "P22", "P23"]

MID = [0, 1, 2, 127, 128, 255, 256, 257, 400, 1000, 4095, 4096]
TOP = [32767, 32768, 65534, 65535]


def load(r, reg, n, kind, how=None, leaf=None, nest=None, order=None, marks=None):
    how = how or r.choice(["build", "build", "json", "val"])
    leaf = leaf or r.choice(LEAVES + LEAVES[1:2] * 6)
    order = "asc" if how != "build" or kind == "arr" else order or r.choice(["asc", "desc", "stride"])
    if marks is None:
        marks = sorted({r.randrange(n) for _ in range(r.choice([1, 2, 5]))} | ({n - 1} if r.random() < 0.3 else set())) if leaf["t"] == "bool" and n else []
    return {"op": "load", "reg": reg, "how": how, "kind": kind, "n": n, "d": n, "leaf": leaf, "order": order, "sorted": order == "asc" and r.random() < 0.5,
            "via": "own", "pre": [], "nest": nest or r.choice(["none", "none", "arr", "obj"]), "marks": marks}


def fill_key(i):
    return [97 + i // 17576, 97 + i // 676 % 26, 97 + i // 26 % 26, 97 + i % 26]


def inside(o):
    """Position of the fill, and the path that leads to it."""
    return ([], "$") if o["nest"] == "none" else ([0], "$[0]") if o["nest"] == "arr" else ([0], "$.k")


def some_index(r, o):
    n = o["n"]
    return max(0, r.choice([0, 1, n // 2, n - 2, n - 1, n, n + 1, 255, 256, 65535, 65536, n - 256, 65536 + n // 2] + o["marks"] * 3 + [r.randrange(n + 1)]))


def some_path(r, o, method=False):
    to = inside(o)[1]
    n = o["n"]
    one = lambda: str(some_index(r, o)) if r.random() < 0.6 else "last" if r.random() < 0.2 else "last-%d" % max(0, n - 1 - some_index(r, o))
    if o["kind"] == "obj" and r.random() < 0.85:
        k = bytes(fill_key(min(some_index(r, o), 456975))).decode()
        p = r.choice([to + "." + k, to + "." + k, "$.." + k, to + "..\"%s\"" % k, to + ".*", "$.%s" % k, to + "[0]." + k])
    else:
        # A range, but not many of the whole.
        span = lambda: one() + " to " + one()
        p = to + r.choice(["[%s]" % one(), "[%s]" % one(), "[%s,%s,%s]" % (one(), one(), one()), "[%s]" % span(), "[%s,%s]" % (span(), one()), "[*]", "[%s][*]" % one(), "[last to 0]"])
    if method:
        if r.random() < 0.3:
            return B(to + r.choice([".count()", ".size()", ".size()", ".type()"]))
        if o["kind"] == "arr" and r.random() < 0.4:
            return B(to + "[" + ",".join(["0 to last"] * r.choice([2, 3, 4])) + r.choice(["", ",0"]) + "].count()")
        p += r.choice([".count()", ".size()", ".type()"])
    return B(p)


FORMS = [(False, False, False), (True, False, False), (True, True, False), (True, False, True), (True, True, True)]


def wide_case(r, prop, n, turn):
    kind = {"P06": "obj", "P12": "obj", "P11": "arr", "P15": r.choice(["obj", "obj", "arr"]), "P16": r.choice(["arr", "arr", "arr", "obj"])}.get(prop, r.choice(["arr", "obj"]))
    top = n > 5000
    how = r.choice([None, "build"]) if prop in ("P06", "P12") else {"P01": "json"}.get(prop)
    o = load(r, 0, n, kind, how=how, nest=["none", "arr", "obj"][turn % 3], order=["desc", "stride", "asc", "desc"][turn % 4])
    pos, _ = inside(o)
    ops = [o]
    if prop == "P03":
        for p in {tuple(pos), ()}:
            ops.append({"op": "fmt", "reg": 0, "pos": list(p), "pretty": r.random() < 0.5, "via": r.choice(["disp", "to", "app"])})
    elif prop == "P04":
        ops.append({"op": "rt", "reg": 0, "via": r.choice(["bincode"] if top else ["compact", "pretty", "json", "tree", "bincode"]), "reg2": 1})
    elif prop in ("P06", "P12"):
        ops.append({"op": "obj", "reg": 0, "pos": pos, "keys": [fill_key(min(456975, some_index(r, o))) for _ in range(8)] + [fill_key(n), B("zzzz"), B("aaa"), B("aaaaa"), []]})
    elif prop == "P11":
        ops.append({"op": "arr", "reg": 0, "pos": pos, "idx": [some_index(r, o) for _ in range(8)] + [n - 1, n, -1] if n else [0, 1]})
    elif prop == "P13":
        twin = dict(load(r, 1, n, kind, leaf=o["leaf"], nest=o["nest"], marks=o["marks"]))
        k = r.random()
        if k < 0.25 and o["leaf"]["t"] == "bool" and n:
            twin["marks"] = sorted(set(o["marks"]) ^ {some_index(r, dict(o, n=n - 1)) % n})
        elif k < 0.4 and n:
            twin.update(n=n - 1, d=n - 1, marks=[i for i in o["marks"] if i < n - 1])
        ops += [twin, {"op": "eq", "a": 0, "apos": [], "b": 1, "bpos": []}, {"op": "eq", "a": 0, "apos": pos, "b": 1, "bpos": pos}]
    elif prop in ("P15", "P16"):
        for _ in range(3):
            ops.append({"op": "query", "reg": 0, "pos": [], "path": some_path(r, o), "wrap": True, "qb": False, "rb": r.random() < 0.3})
    elif prop == "P17":
        for _ in range(3):
            p = some_path(r, o)
            ops += [{"op": "query", "reg": 0, "pos": [], "path": p, "wrap": True, "qb": False, "rb": False}, {"op": "exists", "reg": 0, "pos": [], "path": p}]
    elif prop in ("P18", "P19", "P20"):
        for m in r.sample(FORMS, 2 if top else 3):
            ops.append({"op": "query", "reg": 0, "pos": [], "path": some_path(r, o, prop == "P19"), "wrap": m[0], "qb": m[1], "rb": m[2]})
    elif prop == "P25":
        for _ in range(2):
            ops.append({"op": "cut", "reg": 0, "reg2": 1, "at": r.choice([-1, -2, -r.randint(1, 40), 5, r.randint(0, 10 ** 6), r.randint(0, 10 ** 6)])})
            ops += [{"op": "exists", "reg": 1, "pos": [], "path": some_path(r, o)}, {"op": "query", "reg": 1, "pos": [], "path": some_path(r, o), "wrap": True, "qb": False, "rb": r.random() < 0.3},
                    {"op": "fmt", "reg": 1, "pos": [], "pretty": False, "via": "to"}, {"op": "eq", "a": 0, "apos": [], "b": 1, "bpos": [], "fn": True},
                    {"op": "obj", "reg": 1, "pos": pos, "keys": [fill_key(min(456975, some_index(r, o))) for _ in range(4)]} if kind == "obj" else
                    {"op": "arr", "reg": 1, "pos": pos, "idx": [some_index(r, o) for _ in range(4)]}]
    elif prop == "P22":
        via = r.choice(["view", "try", "buf", "own", "clone", "clonebig"])
        ops += [{"op": "ext", "reg": 0, "pos": pos, "via": via, "pre": B("q") if via == "try" else [], "reg2": 1}, {"op": "walk", "reg": 1, "pos": [], "how": "iter"}]
    elif prop == "P23":
        ops += [{"op": "root", "reg": 0, "pos": p} for p in ([[]] if pos == [] else [[], pos])]
    else:
        ops.append({"op": "walk", "reg": 0, "pos": [], "how": r.choice(["iter", "get"])})
    return ops


def wide(prop, tier, seed):
    """Documents of up to 65535 elements, read by ordinary calls."""
    if prop in ("P02", "P08", "P09", "P10", "P14", "P24"):
        return []
    r = random.Random("wide %s %d" % (prop, seed))
    few, many = (24, 16) if tier == "thorough" else (12, 2)
    sizes = [r.choice(MID[3:]) for _ in range(few)] + [r.choice(TOP + [20000]) for _ in range(many)]
    turn = r.randrange(12)
    out = [wide_case(r, prop, n, turn + i) for i, n in enumerate(sizes)]
    if prop in ("P19", "P20"):
        # Sizes beyond 2^8, wherever the array is.
        for n in [r.choice([256, 300, 511, 1000, 4096]) for _ in range(4)] + [r.choice(TOP)]:
            for nest in ("none", "arr", "obj"):
                o = load(r, 0, n, r.choice(["arr", "arr", "arr", "obj"]), nest=nest, marks=[], leaf=r.choice(LEAVES))
                ps = {"none": ["$", "$[last]" if o["kind"] == "obj" else "$"], "arr": ["$[0]", "$[*]", "$[0 to last]", "$[last]", "$[5,0]"], "obj": ["$.k", "$.*", "$..k", "$[0].k"]}[nest]
                m = r.choice(FORMS[1:])
                out.append([o] + [{"op": "query", "reg": 0, "pos": [], "path": B(p + r.choice([".size()", ".size()", ".size()", ".type()", ".count()"])), "wrap": m[0], "qb": m[1], "rb": m[2]} for p in r.sample(ps, 2)])
    if prop == "P19":
        # Counts on either side of 2^8 and 2^16.
        for n in (255, 256, 65535, 65536, r.choice([65537, 70000, 131072, 200000])):
            k = r.choice([x for x in (1, 2, 3, 4, 5, 8, 16, 51, 255) if n % x == 0 and n // x < 65536] or [3])
            o = load(r, 0, n // k, "arr", nest="none", marks=[], leaf=r.choice(LEAVES))
            p = "$[%s%s].count()" % (",".join(["0 to last"] * k), ",0" * (n % k))
            m = r.choice(FORMS[1:])
            out.append([o, {"op": "query", "reg": 0, "pos": [], "path": B(p), "wrap": m[0], "qb": m[1], "rb": m[2]}])
    return out


def cases(prop, tier, seed):
    """(ordinary cases, cases needing much memory)."""
    r = random.Random("big %s %d" % (prop, seed))
    thorough = tier == "thorough"
    hows = {"P01": ["json", "val"], "P07": ["build"], "P10": ["build"]}.get(prop, ["build", "build", "json", "val"])
    g = Ropes(r, hows)
    out = []
    made = refusals(g) if prop in ("P01", "P07", "P21") else []
    made += shapes(g, prop) if prop not in ("P07", "P10", "P14", "P15", "P16", "P17") else []
    for c in made + [g.case() for _ in range((600 if thorough else 120) if prop == "P21" else (150 if thorough else 30))]:
        if prop in ASKED and not whole(c[0]["val"]):
            continue
        if c[0]["how"] in hows + ["scalar", "try"]:
            v = c[0]["val"]
            if whole(v) and size_of(v) < 1 << 22:
                c[0]["also"] = g.alsos(r.choice(ASKED) if prop == "P21" else prop, v)
            out.append(c)
    fills = {"P01": dict(how="json"), "P07": dict(how="build"), "P10": dict(how="build"), "P09": dict(via="to", how="build"),
             "P06": dict(kind="obj"), "P12": dict(kind="obj"), "P11": dict(kind="arr")}.get(prop, {})
    for _ in range((60 if thorough else 20) if prop == "P21" else (20 if thorough else 6) if prop not in ASKED else 0):
        n = r.choice(MID)
        d = None
        if r.random() < 0.4 and fills.get("how", "build") == "build":
            d = max(0, n + r.choice([-3, -1, 1]))
            out.append(fill(r, n, **dict(fills, how="build"), d=d))
        else:
            out.append(fill(r, n, **fills))
    if prop == "P21":
        for n in (TOP if thorough else [65535]):
            for kind in ("arr", "obj"):
                for how in ("build", "json"):
                    out.append(fill(r, n, kind=kind, how=how, leaf=r.choice(LEAVES[:4] if thorough else LEAVES[:3]), nest="none", qs=how == "build"))
                if thorough:
                    out.append(fill(r, n, kind=kind, how="val", nest="arr"))
                    out.append(fill(r, n, kind=kind, how="build", nest="obj"))
        for kind in ("arr", "obj"):
            for nest in ("none", "arr", "obj"):
                out.append(fill(r, 65536, kind=kind, how="json", nest=nest))
                out.append(fill(r, 65536 + r.randint(0, 300), kind=kind, how="val", nest=nest))
            out.append(fill(r, 65537, kind=kind, how="build", d=65535, nest="none", leaf=LEAVES[0], qs=False))
    elif prop in ("P06", "P07", "P10", "P12", "P11", "P05"):
        if thorough:
            out.append(fill(r, 65535, **dict(fills, nest="none", leaf=LEAVES[0])))
    big = []
    if prop == "P21":
        big = huge(r)
        if not thorough:
            big = [big[i] for i in (3, 6, 9, 11, 12, 13, 14, 17)]
    elif prop == "P09":
        big = [c for c in huge(r) if c[0]["via"] == "to" and (thorough or size_of(c[0]["val"]) > MAXS)]
    return out, big


def size_of(v):
    return size(v["r"]) if v["t"] == "str" else max([size_of(x) for x in v.get("a", [])] + [size_of(m["v"]) for m in v.get("o", [])] + [0])

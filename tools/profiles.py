"""Which random cases each property's check runs.  A case is a list of harness calls."""
from gen import Gen, B, Str, Int, Num, NULL, Bool
import json
import random


def walk(reg, pos=(), how=None, g=None):
    return {"op": "walk", "reg": reg, "pos": list(pos), "how": how or (g.pick(["iter", "get"]) if g else "iter")}


def both(reg):
    return [walk(reg, how="iter"), walk(reg, how="get")]


def rooms(g, n=3):
    """Writers with room for so many thousandths of the text; negative: that refuse only once."""
    return [g.pick([1, -1]) * g.pick([0, 1000, 999, 990, 950, g.r.randint(1, 999), g.r.randint(1, 999), g.r.randint(1, 999)]) for _ in range(g.r.randint(0, n))]


def told(g):
    return {"pretty": g.p(0.5), "rooms": rooms(g)}


def fmt(g, reg, pos=()):
    return {"op": "fmt", "reg": reg, "pos": list(pos), "pretty": g.p(0.6), "via": g.pick(["disp", "to", "app"]), "rooms": rooms(g)}


def deep_text(g, d, leaf="1"):
    """Nested containers in text form, depth d, with the marker deepest."""
    op, cl = "", ""
    style = g.pick(["arr", "obj", "mix", "mix"])
    for i in range(d):
        if style == "arr" or (style == "mix" and g.p(0.5)):
            sib = g.pick(["", "", "", "[],", "1,", "[[]],"])
            op, cl = op + "[" + sib, "]" + cl
        else:
            sib = g.pick(["", "", "", '"s":{},', '"t":[[1]],'])
            op, cl = op + "{" + sib + '"' + g.pick("ab") + '":', "}" + cl
    return op + leaf + cl


# ---------------------------------------------------------------------------
def p01(g):
    k = g.r.random()
    if k < 0.50:
        return [g.op_parse(g.json_text(), 0)] + both(0)
    if k < 0.60:
        return [g.op_parse(g.json_text(2, 120), 0)] + both(0)
    if k < 0.72:
        ns = [g.number_text() if g.p(0.7) else g.pick(["", "-"]) + g.pick(["1e-", "9.99E-", "0.001e-"]) + str(g.pick([127, 128, 129, 130, 131, 200, 999])) for _ in range(g.r.randint(1, 8))]
        t = "[" + ",".join(ns) + "]" if g.p(0.7) else "{" + ",".join('"%s%d":%s' % (g.pick("ab"), i, x) for i, x in enumerate(ns)) + "}"
        return [g.op_parse(t, 0)] + both(0)
    if k < 0.78:
        t = g.ws() + (g.number_text() if g.p(0.6) else g.text(g.scalar())) + g.ws()
        return [g.op_parse(t, 0), walk(0)]
    if k < 0.84:
        d = g.pick([g.r.randint(5, 60), 99, 100]) if g.p(0.3) else g.r.randint(4, 12)
        return [g.op_parse(deep_text(g, d, g.pick(["1", "[]" if d < 100 else "2", '"x"', "null"])), 0), walk(0)]
    if k < 0.94:
        # repeated keys
        ks = [g.key() for _ in range(g.r.randint(1, 4))]
        t = "{" + ",".join(g.quote(g.pick(ks)) + ":" + g.text(g.value(2, 3)) for _ in range(g.r.randint(2, 9))) + "}"
        if g.p(0.4):
            t = '[0,' + t + ']'
        return [g.op_parse(t, 0)] + both(0)
    n = g.pick([100, 127, 128, 129, 255, 256, 257, 300])
    t = "[" + ",".join(g.pick(["1", "null", "true", '"x"', "[]", "{}", "-2.5"]) for _ in range(n)) + "]" if g.p(0.5) else \
        "{" + ",".join('"%s%d":%s' % (g.pick(["a", "b", ""]), i, g.pick(["1", "null", "[2]", '"y"'])) for i in range(n)) + "}"
    return [g.op_parse(t, 0)] + both(0)


def p02(g):
    k = g.r.random()
    via = g.pick(["own", "to", "val"])
    if k < 0.30:
        t = g.break_text(g.json_text(g.pick([0, 1, 2, 3]), 6))
        if g.p(0.2):
            t = g.break_text(t)
    elif k < 0.42:
        t = g.pick(g.BAD)
        if g.p(0.3):
            t = "[" + t + "]"
    elif k < 0.62:
        v = g.renumber(g.value(g.pick([1, 2, 3]), 8, 0.95), lambda: g.big_number_text() if g.p(0.5) else "1")
        t = g.text(v, 0.05, g.pick([0, 0.3]))
    elif k < 0.70:
        t = g.big_number_text()
    elif k < 0.92:
        d = g.pick([99, 100, 101, 101, 102, 103, 110, 126, 127, 128, 129, 130, 150, 300])
        t = deep_text(g, d, g.pick(["1", '"x"', "1e999", "[]", "{}", "null"]))
        if g.p(0.15):
            t = t[:-1]
        if g.p(0.2):
            t = '{"q":' + t + ',"q":1}'
        elif g.p(0.2):
            t = g.pick(['[[[[]]],%s]', '{"r":{"r":{}},"s":%s}', '[%s,1]', '[1e999,%s]']) % t
    elif k < 0.96:
        # a large but finite neighbour
        t = "[" + ",".join(g.big_number_text() for _ in range(g.r.randint(1, 3))) + "]"
    else:
        t = g.json_text(2, 6)
    ops = [g.op_parse(t, 0, via), walk(0)]
    if g.p(0.2):
        ops.append(g.op_parse(t, 1, g.pick(["own", "to", "val"])))
    return ops


def p03(g):
    k = g.r.random()
    if k < 0.75:
        v, ops = g.doc(0, g.pick([0, 1, 2, 3, 4]))
    elif k < 0.80:
        if g.p(0.15):
            v = g.chain(g.pick([33, 51, 64, 65, 66, 90, 99, 100]))
            return g.make(v, 0) + [{"op": "fmt", "reg": 0, "pos": [], "pretty": True, "via": g.pick(["disp", "to", "app"])}]
        v = g.chain(g.pick([3, 4, 10, 12, 20, 50, 99, 100] if g.p(0.3) else [3, 5, 10, 15]), siblings=0.05)
        while depth_of(v) > 100:
            v = g.chain(g.pick([3, 10, 50]), siblings=0.02)
        ops = g.make(v, 0)
    elif k < 0.93:
        v = {"t": "arr", "a": [g.number() for _ in range(g.r.randint(1, 8))]}
        ops = g.make(v, 0)
    else:
        v = Str("".join(chr(i) for i in range(0x80)) if g.p(0.3) else g.string())
        ops = [g.op_scalar(v, 0)] if g.p(0.6) else g.make({"t": "obj", "o": [{"k": v["s"], "v": v}]}, 0)
        v = v if ops[0]["op"] == "scalar" else {"t": "obj", "o": [{"k": v["s"], "v": v}]}
    for _ in range(g.r.randint(1, 3)):
        ops.append(fmt(g, 0, g.pick(g.containers(v)) if g.p(0.4) else []))
    return ops


def depth_of(v):
    """The nesting depth of a value."""
    best, todo = 0, [(v, 0)]
    while todo:
        x, d = todo.pop()
        if x["t"] in ("arr", "obj"):
            best = max(best, d + 1)
            todo += [(y, d + 1) for y in (x["a"] if x["t"] == "arr" else [m["v"] for m in x["o"]])]
    return best


def p04(g):
    k = g.r.random()
    if k < 0.15:
        v = g.scalar() if g.p(0.5) else Str(g.pick(["", "a", "\u00e9", '"', "[", "3"]) + g.pick(["\x00", "\x00\x00", " ", "\n", "\u2028", '"', "\\", "]", "\x7f", ","]) * g.pick([1, 1, 2]))
        ops = g.make(v, 0)
    elif k < 0.9:
        v, ops = g.doc(0, g.pick([1, 2, 3, 4]))
    else:
        v = g.chain(g.pick([50, 99, 100]) if g.p(0.15) else g.pick([4, 10, 20]))
        ops = g.make(v, 0)
    vias = ["compact", "pretty", "json", "tree", "bincode"]
    g.r.shuffle(vias)
    src = 0
    for i, via in enumerate(vias[:g.r.randint(1, 5)]):
        ops.append({"op": "rt", "reg": src, "via": via, "reg2": i + 1})
        if g.p(0.3):
            src = i + 1
    return ops


def p05(g):
    k = g.r.random()
    if k < 0.25:
        v = g.scalar()
        pad = g.pad(v)
        return [g.op_scalar(v, i, pad) for i in range(g.r.randint(1, 3))]
    if k < 0.60:
        v = g.value(g.pick([1, 2, 3]), 20, 1.0)
        if v["t"] not in ("arr", "obj"):
            v = {"t": "arr", "a": [v]}
        ops = g.build(v, 0, 0.1 if g.p(0.2) else 0)
        again = [dict(o) for o in ops]
        for o in again:
            if o["op"] == "b_fin":
                o["reg"] = 1
            if o["op"] == "b_root":
                d = g.dest(1)
                d.pop("reg")
                o.update(d)
        return ops + again
    if k < 0.9:
        t = g.json_text(g.pick([1, 2, 3]), 20)
        return [g.op_parse(t, 0), g.op_parse(t, 1)]
    # more than 64 KB: offsets need a third byte
    n = g.pick([30000, 65530, 65536, 66000])
    v = {"t": "arr", "a": [Str("x" * n), Int(7), Str("y"), Bool(True)]} if g.p(0.5) else \
        {"t": "obj", "o": [{"k": B("b"), "v": Str("x" * n)}, {"k": B("a"), "v": Int(300)}, {"k": B("cc"), "v": {"t": "arr", "a": [Int(1)]}}]}
    return g.build(v, 0) if g.p(0.02) else g.build(shrink(v, 300), 0)


def shrink(v, n):
    if v["t"] == "str":
        return {"t": "str", "s": v["s"][:n]}
    if v["t"] == "arr":
        return {"t": "arr", "a": [shrink(x, n) for x in v["a"]]}
    if v["t"] == "obj":
        return {"t": "obj", "o": [{"k": m["k"], "v": shrink(m["v"], n)} for m in v["o"]]}
    return v


def key_set(g, n):
    """Keys that are easily confused."""
    k = g.r.random()
    if k < 0.3:
        pool = ["".join(g.pick("ab") for _ in range(g.r.randint(0, 5))) for _ in range(3 * n)]
    elif k < 0.45:
        base = g.string(False)
        pool = [base[:i] + g.pick(["", "a", "\x00", "\x7f", "\u0080", "\uffff"]) for i in range(len(base) + 1) for _ in range(3)] + [base + "b" * i for i in range(n)]
    elif k < 0.6:
        pool = ["\u00ff", "z", "~", "\x7f", "\u0080", "\u07ff", "\u0800", "\uffff", "\U00010000", "aa", "a\x00", "\x00", "\x00\x00", "", "a", "A", "\u00e9", "e\u0301"] + [g.key() for _ in range(n)]
    elif k < 0.75:
        m = g.pick([126, 127, 128, 254, 255, 256, 257, 511, 512, 513])
        pool = ["k" * m, "k" * (m + 1), "k" * (m - 1), "k" * (m - 1) + "j", "k" * (m - 1) + "l", "j" + "k" * (m - 1), "a", "b"] + [g.key() for _ in range(n)]
    elif k < 0.85:
        pool = ["k%d" % i for i in range(3 * n)]
    else:
        pool = [g.key() for _ in range(2 * n)]
    g.r.shuffle(pool)
    return list(dict.fromkeys(pool))[:n]


def near(g, keys):
    """Keys that are probably absent but close."""
    out = []
    for k in keys:
        out += [k + "a", k[:-1], "a" + k, k + "\x00", k.upper(), k[:-1] + "~"]
    return out + ["", "nope"]


def object_case(g, big=False):
    n = g.pick([60, 127, 128, 130, 255, 256, 257, 260, 300]) if big else g.pick([0, 1, 2, 3, 4, 5, 8, 12, 20])
    keys = key_set(g, n)
    return {"t": "obj", "o": [{"k": B(k), "v": g.scalar(False) if g.p(0.8) else g.value(1, 3)} for k in keys]}, keys


def p06(g):
    v, keys = object_case(g, g.p(0.1))
    ask = list(keys) if len(keys) <= 12 else g.r.sample(keys, 12)
    miss = near(g, keys)
    ask += [g.pick(miss) for _ in range(min(8, len(miss)))]
    g.r.shuffle(ask)
    ops = g.build(v, 0) if g.p(0.8) else [g.op_parse(g.text(v), 0)]
    if g.p(0.15 if len(keys) < 60 else 0.5):
        # inside something else
        outer = {"t": "arr", "a": [g.scalar(), v, g.scalar()]} if g.p(0.5) else {"t": "obj", "o": [{"k": B("in"), "v": v}, {"k": B("z"), "v": g.scalar()}]}
        pos = [1] if outer["t"] == "arr" else [1 if 2 > 1 and True else 0]
        ops = g.make(outer, 0)
        pos = [1] if outer["t"] == "arr" else [[i for i, m in enumerate(g.sorted(outer)) if bytes(m["k"]) == b"in"][0]]
        return ops + [{"op": "obj", "reg": 0, "pos": pos, "keys": [B(k) for k in ask]}, walk(0, pos, g=g)]
    return ops + [{"op": "obj", "reg": 0, "pos": [], "keys": [B(k) for k in ask]}, walk(0, g=g)]


def p06dup(g):
    """The same key pushed twice: only leaves, only lookups."""
    keys = [g.pick(["a", "b", "aa", "ab", ""]) for _ in range(g.r.randint(2, 6))]
    v = {"t": "obj", "o": [{"k": B(k), "v": g.scalar(False)} for k in keys]}
    g.r.shuffle(v["o"])
    ops = [{"op": "b_root", "kind": "obj", "n": len(keys), "sorted": False, **{k: x for k, x in g.dest(0).items() if k != "reg"}}]
    ops += [{"op": "b_push", "key": m["k"], "val": m["v"], "pad": 0} for m in v["o"]] + [{"op": "b_fin", "reg": 0}]
    return ops + [{"op": "obj", "reg": 0, "pos": [], "keys": [B(k) for k in ["a", "b", "aa", "ab", "", "c"]]}]


def p07(g):
    k = g.r.random()
    if k < 0.65:
        ops = g.wild_build(0)
    else:
        v = g.value(g.pick([1, 2, 3, 4]), 6, 1.0)
        if v["t"] not in ("arr", "obj"):
            v = {"t": "arr", "a": [v]}
        ops = g.build(v, 0)
        if g.p(0.4):
            i = g.r.randrange(1, len(ops))
            ops.insert(i, {"op": g.pick(["b_drop", "b_fin"]), "reg": 0}) if g.p(0.6) else ops.pop(i)
            ops += [{"op": "b_fin", "reg": 0}] * g.r.randint(0, 3)
            # pushes may now land in another container: keys stay distinct, and promise no order
            ops = [dict(o, **({"sorted": False} if "sorted" in o else {}), **({"key": o["key"] + B("~%d" % i)} if "key" in o else {})) for i, o in enumerate(ops)]
    ops = ops + [walk(0, g=g)]
    if g.p(0.15):
        ops += g.wild_build(1) + [walk(1)]
    return ops


def p08(g):
    if g.p(0.5):
        d = g.pick([98, 99, 100, 100, 101, 102, 103])
        t = deep_text(g, d, g.pick(["1", "[]", "{}", '"x"', "null"]))
        return [g.op_parse(t, 0), walk(0, g=g)]
    # by builders: down to some depth, with siblings opened and closed on the way
    ops = [{"op": "b_root", "kind": g.pick(["arr", "obj"]), "n": 0, "sorted": g.p(0.2), **{k: x for k, x in g.dest(0).items() if k != "reg"}}]
    stack = [ops[0]]
    target = g.pick([97, 98, 99, 100, 101, 101, 103])
    used = [set()]

    def key():
        if stack[-1]["kind"] == "arr":
            return []
        # in key order, so that either mode is right
        k = "k" * (len(used[-1]) + 1)
        used[-1].add(k)
        return B(k)

    while len(stack) < target:
        if len(stack) >= 100:
            # refused
            stack[-1]["n"] += 1
            ops.append({"op": "b_open", "key": key(), "kind": g.pick(["arr", "obj"]), "n": 0, "sorted": g.p(0.2)})
            if g.p(0.5):
                ops.append({"op": "b_push", "key": B("y") if stack[-1]["kind"] == "obj" else [], "val": Int(1), "pad": 0})
            elif g.p(0.7):
                stack[-1]["n"] -= 1
            break
        if g.p(0.12):
            # a finished sibling
            k = g.pick([1, 1, 2, 3])
            k = min(k, 100 - len(stack))
            for i in range(k):
                stack[-1]["n"] += 1
                o = {"op": "b_open", "key": key(), "kind": g.pick(["arr", "obj"]), "n": 0, "sorted": False}
                ops.append(o)
                stack.append(o)
                used.append(set())
            for i in range(k):
                ops.append({"op": "b_fin", "reg": 0})
                stack.pop()
                used.pop()
        stack[-1]["n"] += 1
        o = {"op": "b_open", "key": key(), "kind": g.pick(["arr", "obj"]), "n": 0, "sorted": g.p(0.2)}
        ops.append(o)
        stack.append(o)
        used.append(set())
    # coming back up, open something again
    while stack:
        if len(stack) < 100 and g.p(0.1):
            stack[-1]["n"] += 1
            ops.append({"op": "b_open", "key": key(), "kind": "arr", "n": 0, "sorted": False})
            ops.append({"op": "b_fin", "reg": 0})
        ops.append({"op": "b_fin", "reg": 0})
        stack.pop()
        used.pop()
    return ops + [walk(0, g=g)]


def refused_text(g):
    """A text that most likely is refused: what is wrong with it at the top, or inside, before or after good parts."""
    t = g.pick([deep_text(g, g.pick([101, 102])), g.break_text(g.json_text(g.pick([0, 1, 2]), 5)), "1e999", "-1E126", "9" * 127, g.big_number_text()])
    for _ in range(g.pick([0, 0, 1, 1, 2, 3])):
        x = g.pick(["", "", '"x",', "[[1],{}],", "null,true,"])
        y = g.pick(["", "", ",1", ',{"q":[]}', ',"' + "y" * 30 + '"'])
        t = "[" + x + t + y + "]" if g.p(0.5) else '{"b":' + t + g.pick(["", ',"a":1', ',"ccc":[[]]', ',"A":"%s"' % ("z" * 140)]) + "}"
    return t


def p09(g):
    """The same thing into several buffers."""
    k = g.r.random()
    regs = g.r.randint(2, 3)
    if k < 0.3:
        v = g.scalar()
        pad = g.pad(v)
        return [g.op_scalar(v, i, pad) for i in range(regs)]
    if k < 0.65:
        v = g.value(g.pick([1, 2, 3]), 10, 1.0)
        if v["t"] not in ("arr", "obj"):
            v = {"t": "obj", "o": [{"k": B("a"), "v": v}]}
        ops = g.build(v, 0, 0.05 if g.p(0.3) else 0)
        if g.p(0.2):
            # an unfinished or failing build
            i = g.r.randrange(1, len(ops))
            ops = ops[:i] + [{"op": g.pick(["b_fin", "b_drop"]), "reg": 0}] * 6
        out = []
        for r in range(regs):
            d = g.dest(r, 0.3)
            d.pop("reg")
            for o in ops:
                o = dict(o)
                if o["op"] == "b_fin":
                    o["reg"] = r
                if o["op"] == "b_root":
                    o.update(d)
                out.append(o)
        return out
    if k < 0.85:
        t = g.json_text(g.pick([0, 1, 2, 3]), 10)
    else:
        t = refused_text(g)
    return [g.op_parse(t, i, g.pick(["own", "to", "to", "val"])) for i in range(regs)]


def p10(g):
    k = g.r.random()
    if k < 0.6:
        v = g.value(g.pick([1, 2, 2, 3]), 6, 1.0)
        if v["t"] not in ("arr", "obj"):
            v = {"t": "obj", "o": [{"k": B("a"), "v": v}]}
        clean = g.build(v, 1)
        dirty, lvl, i = [], [], 0
        want = []
        # the same calls with refused ones in between
        for o in clean:
            if o["op"] in ("b_root", "b_open"):
                if want:
                    want[-1][1] += 1
                want.append([o["n"], 0, o["kind"]])
            room = want and want[-1][1] < want[-1][0]
            if o["op"] not in ("b_root", "b_open"):
                while g.p(0.25):
                    g.fault({"t": want[-1][2]}, dirty, room)
            if o["op"] == "b_push":
                want[-1][1] += 1
            if o["op"] == "b_fin":
                want.pop()
                o = dict(o, reg=0)
            dirty.append(o)
        return dirty + [walk(0)] + clean + [walk(1)]
    if k < 0.9:
        return g.wild_build(0) + [walk(0)]
    # too deep, then go on
    return p08(g)


def p11(g):
    k = g.r.random()
    if k < 0.08:
        v = g.scalar()
    elif k < 0.9:
        v = {"t": "arr", "a": [g.value(g.pick([0, 0, 1, 2]), 3) for _ in range(g.pick([0, 1, 2, 3, 5, 8, 12, 20]))]}
    else:
        v = {"t": "arr", "a": [g.scalar(False) for _ in range(g.pick([50, 51, 52, 60, 127, 128, 255, 256, 257]))]}
    ops = g.make(v, 0)
    pos = []
    if g.p(0.3):
        w = g.value(3, 4, 0.95)
        outer = {"t": "arr", "a": [w, v, w]} if g.p(0.5) else {"t": "obj", "o": [{"k": B("m"), "v": v}, {"k": B("a"), "v": w}, {"k": B("zz"), "v": w}]}
        ops = g.make(outer, 0)
        pos = g.pick([p for p in g.containers(outer)])
        v = g.at(outer, pos)
    n = len(g.kids(v))
    idx = [0, n - 1, n, n + 1, g.r.randint(0, n + 2), g.pick([255, 256, 65535, 65536, 65536 + n - 1, 2**31 - 1, n // 2, 2 * n])]
    idx = list(dict.fromkeys(i for i in idx if i >= 0))
    if n <= 8 and g.p(0.7):
        idx = list(range(n + 2)) + idx[-1:]
    if g.p(0.15):
        idx.append(-1)
    return ops + [{"op": "arr", "reg": 0, "pos": pos, "idx": idx}]


def p12(g):
    k = g.r.random()
    if k < 0.08:
        v, keys = g.scalar(), ["a"]
    else:
        v, keys = object_case(g, g.p(0.04))
        if g.p(0.5):
            for m in v["o"]:
                m["v"] = g.value(g.pick([0, 1, 2]), 3)
    ops = g.make(v, 0)
    pos = []
    if g.p(0.3 if len(keys) < 60 else 0.6):
        w = g.value(3, 4, 0.95) if len(keys) < 60 else g.scalar()
        outer = {"t": "arr", "a": [w, v, w]} if g.p(0.5) else {"t": "obj", "o": [{"k": B("m"), "v": v}, {"k": B("a"), "v": w}, {"k": B("zz"), "v": w}]}
        ops = g.make(outer, 0)
        pos = g.pick([p for p in g.containers(outer) if p or len(keys) < 60])
        v = g.at(outer, pos)
        keys = [bytes(m["k"]).decode() for m in v["o"]] if v["t"] == "obj" else ["a"]
    ask = list(keys) if len(keys) <= 8 else g.r.sample(keys, 8)
    miss = near(g, keys)
    ask += [g.pick(miss) for _ in range(4)]
    return ops + [{"op": "obj", "reg": 0, "pos": pos, "keys": [B(k) for k in ask]}]


def mutate(g, v):
    """Changes the value in one place."""
    pos = g.pick(g.positions(v))

    def at(x, p):
        if not p:
            return change(x)
        if x["t"] == "arr":
            return {"t": "arr", "a": [at(y, p[1:]) if i == p[0] else y for i, y in enumerate(x["a"])]}
        return {"t": "obj", "o": [{"k": m["k"], "v": at(m["v"], p[1:]) if i == p[0] else m["v"]} for i, m in enumerate(g.sorted(x))]}

    def change(x):
        if g.p(0.15):
            return g.value(1, 2)
        t = x["t"]
        if t == "null":
            return g.pick([Bool(False), Int(0), Str(""), {"t": "arr", "a": []}])
        if t == "bool":
            return Bool(not x["b"]) if g.p(0.8) else Int(int(x["b"]))
        if t == "num":
            k = g.r.random()
            if k < 0.3 and x["d"]:
                return dict(x, neg=not x["neg"])
            if k < 0.5 and x["d"] and x["e"] < 100 and len(x["d"]) + x["e"] < 120:
                return dict(x, e=x["e"] + 1)
            if x["d"]:
                d = list(x["d"])
                d[g.r.randrange(len(d))] = g.r.randint(1, 9)
                return Num(x["neg"], "".join(map(str, d)), x["e"])
            return Int(1)
        if t == "str":
            s = bytes(x["s"]).decode()
            return Str(g.pick([s + "a", s[:-1], s + "\x00", s.swapcase(), "a" + s[1:], s[1:] + s[:1]]))
        if t == "arr":
            a = list(x["a"])
            k = g.r.random()
            if a and k < 0.3:
                a.pop(g.r.randrange(len(a)))
            elif len(a) > 1 and k < 0.6:
                i, j = g.r.sample(range(len(a)), 2)
                a[i], a[j] = a[j], a[i]
            elif k < 0.9:
                a.insert(g.r.randint(0, len(a)), g.scalar(False))
            else:
                return {"t": "obj", "o": []}
            return {"t": "arr", "a": a}
        o = [dict(m) for m in x["o"]]
        k = g.r.random()
        if o and k < 0.3:
            o.pop(g.r.randrange(len(o)))
        elif o and k < 0.6:
            m = o[g.r.randrange(len(o))]
            nk = B(bytes(m["k"]).decode() + g.pick(["a", "\x00"])) if g.p(0.5) else B(bytes(m["k"]).decode()[:-1] + "q")
            if nk not in [y["k"] for y in o]:
                m["k"] = nk
        elif len(o) > 1 and k < 0.8:
            i, j = g.r.sample(range(len(o)), 2)
            o[i]["v"], o[j]["v"] = o[j]["v"], o[i]["v"]
        else:
            nk = B(g.key() + "_new")
            o.append({"k": nk, "v": NULL})
        return {"t": "obj", "o": o}

    return at(v, pos)


def p13(g):
    v = g.value(g.pick([0, 1, 2, 3, 4]), 12, 0.95)
    ops = g.make(v, 0)
    w = v if g.p(0.4) else mutate(g, v)
    if g.p(0.1):
        w = g.value(2, 5)
    ops += g.make(w, 1)
    ops.append({"op": "eq", "a": 0, "apos": [], "b": 1, "bpos": []})
    if g.p(0.3):
        cv, cw = g.containers(v), g.containers(w)
        ops.append({"op": "eq", "a": 0, "apos": g.pick(cv), "b": 1, "bpos": g.pick(cw)})
        ops.append({"op": "eq", "a": 0, "apos": g.pick(cv), "b": 0, "bpos": g.pick(cv)})
    return ops


def p14(g):
    ops = []
    for _ in range(12):
        k = g.r.random()
        t = g.steps_alone()
        if g.p(0.15):
            t += g.pick([".", "..", ". "]) + '"' + g.escapes() + (g.pick(["\\" + c for c in "abefnrtuvx0'/"]) + g.escapes() if g.p(0.3) else "") + '"'
        if k < 0.55:
            t = g.break_path(t)
            if g.p(0.2):
                t = g.break_path(t)
        elif k < 0.6:
            t = g.pick(["", " ", "$" * 2, "$" + " " * 40, "\t$", "$\t", "$\n.a", "$. \n a", "$ [ * ] ", "$.\"\"", "$..\"\"", "$.\"a\\\"b\"", "$.\"\\u0041\"", "$.\"a",
                        "$.a.b.c.d.e.f.g[0][1][2]..x..y", "$[0000000000000000000001]", "$[last-0]", "$[last - 000]", "$.count()", "$.count( )", "$.count ()",
                        "$.count().a", "$.size() ", "$.type()x", "$..count()", "$.\"count\"()", "$[*].size()", "$.counter()", "$.count", "$.a.count",
                        "$[1 to 2147483647]", "$[2147483648 to 1]", "$[last to last]", "$[last - 1 to last - 0,last,0]", "$.*.*", "$*", "$a", "$.é", "$.a_b", "$.1a", "$.a1"])
        ops.append({"op": "path", "text": B(t)})
    return ops


def query(g, v, reg, path, pos=()):
    m = g.pick([(False, False, False), (True, False, False), (True, True, False), (True, False, True), (True, True, True), (False, True, True), (False, False, True)])
    return {"op": "query", "reg": reg, "pos": list(pos), "path": B(path), "wrap": m[0], "qb": m[1], "rb": m[2]}


def qdoc(g, reg=0):
    """Documents with repeated names and nested arrays, good to query."""
    names = g.pick([["a", "b"], ["a", "b", "c"], ["a", "b", "key", "x1"], g.names])
    def val(d):
        k = g.r.random()
        if d == 0 or k < 0.25:
            if g.long > 0 and g.p(0.4):
                return Str(g.string())
            return g.pick([NULL, Bool(True), Bool(False), Int(g.r.randint(0, 9)), Str(g.pick(["", "s", "t"]))]) if g.p(0.85) else g.scalar(False)
        n = g.weighted([(0, 2), (1, 4), (2, 5), (3, 4), (5, 1), (8, 0.4)])
        if k < 0.62:
            return {"t": "arr", "a": [val(d - 1) for _ in range(n)]}
        ks = list(names)
        g.r.shuffle(ks)
        ks = ks[:n] if g.p(0.9) else list(dict.fromkeys([g.key() for _ in range(n)]))
        return {"t": "obj", "o": [{"k": B(x), "v": val(d - 1)} for x in ks]}
    v = val(g.pick([1, 2, 3, 4, 5]))
    if size_of(v) > 60:
        return qdoc(g, reg)
    return v, g.make(v, reg)


def size_of(v):
    n, todo = 0, [v]
    while todo:
        x = todo.pop()
        n += 1
        todo += x["a"] if x["t"] == "arr" else [m["v"] for m in x["o"]] if x["t"] == "obj" else []
    return n


WRAP = {"wrap": True, "qb": False, "rb": False}


def some_pos(g, v):
    return g.pick(g.containers(v)) if g.p(0.15) else []


def p15(g):
    v, ops = qdoc(g)
    kinds = [("key", 10), ("any", 6), ("desc", 6)]
    for _ in range(4):
        pos = some_pos(g, v)
        q = query(g, v, 0, g.path(g.at(v, pos), w=0.02, kinds=kinds if g.p(0.6) else None), pos)
        if g.p(0.8):
            q.update(WRAP)
        ops.append(q)
        if g.p(0.2):
            ops.append({"op": "exists", "reg": 0, "pos": pos, "path": q["path"]})
    return ops


def p16(g):
    if g.p(0.5):
        n = g.pick([0, 1, 2, 3, 4, 5, 7])
        v = {"t": "arr", "a": [Int(i) if g.p(0.6) else g.value(1, 3) for i in range(n)]}
        if g.p(0.3):
            v = {"t": "obj", "o": [{"k": B("a"), "v": v}]}
        ops = g.make(v, 0)
    else:
        v, ops = qdoc(g)
    kinds = [("all", 4), ("one", 8), ("span", 8), ("list", 8), ("key", 2)]
    for _ in range(4):
        pos = some_pos(g, v)
        q = query(g, v, 0, g.path(g.at(v, pos), w=0.02, kinds=kinds if g.p(0.5) else None), pos)
        if g.p(0.8):
            q.update(WRAP)
        ops.append(q)
        if g.p(0.2):
            ops.append({"op": "exists", "reg": 0, "pos": pos, "path": q["path"]})
    return ops


def p17(g):
    v, ops = qdoc(g)
    for _ in range(4):
        pos = some_pos(g, v)
        p = g.path(g.at(v, pos), method=0.08, w=0.02)
        q = {"op": "query", "reg": 0, "pos": pos, "path": B(p), **WRAP}
        x = {"op": "exists", "reg": 0, "pos": pos, "path": B(p)}
        if g.p(0.3):
            q.update(qb=g.p(0.5), rb=g.p(0.5))
        ops += [q, x] if g.p(0.85) else [x, q, x]
    return ops


def p18(g):
    v, ops = qdoc(g)
    if g.p(0.5):
        ops.append({"op": "qinit", "pre": g.pre()})
    w, more = qdoc(g, 1)
    ops += more
    for _ in range(5):
        reg, x = (0, v) if g.p(0.6) else (1, w)
        pos = some_pos(g, x)
        ops.append(query(g, x, reg, g.path(g.at(x, pos), method=0.2, w=0.02), pos))
    return ops


def p19(g):
    v, ops = qdoc(g)
    for _ in range(4):
        pos = some_pos(g, v)
        q = query(g, v, 0, g.path(g.at(v, pos), method=1.0, w=0.05), pos)
        if g.p(0.85):
            q["wrap"] = True
        ops.append(q)
    return ops


def p20(g):
    v, ops = qdoc(g) if g.p(0.8) else g.doc(0, 3)
    if g.p(0.03):
        v = g.chain(g.pick([50, 98, 99, 100]) if g.p(0.25) else g.pick([5, 10, 20]))
        ops = g.make(v, 0)
    for _ in range(2):
        pos = some_pos(g, v)
        p = B(g.path(g.at(v, pos), method=0.1, w=0))
        for m in g.r.sample([(True, False, False), (True, True, False), (True, False, True), (True, True, True), (False, False, False)], 3):
            ops.append({"op": "query", "reg": 0, "pos": pos, "path": p, "wrap": m[0], "qb": m[1], "rb": m[2], **told(g)})
    return ops


def p21(g):
    """Moderate sizes around internal widths; the extreme ones are in the module Big."""
    k = g.r.random()
    if k < 0.4:
        n = g.pick([126, 127, 128, 129, 254, 255, 256, 257, 1000])
        s = g.pick(["x", "\n", "\u00e9"]) * n
        v = Str(s)
        if g.p(0.6):
            v = {"t": "arr", "a": [v, Int(1), v]} if g.p(0.5) else {"t": "obj", "o": [{"k": B(s), "v": Int(1)}, {"k": B("b"), "v": v}]}
        return g.make(v, 0) + both(0)
    if k < 0.8:
        n = g.pick([100, 127, 128, 129, 255, 256, 257, 300])
        v = {"t": "arr", "a": [g.pick([NULL, Int(i), Bool(True), Str("s")]) for i in range(n)]} if g.p(0.5) else \
            {"t": "obj", "o": [{"k": B("k%d" % i), "v": Int(i)} for i in range(n)]}
        return g.make(v, 0) + both(0)
    return [g.op_parse(g.json_text(3, 100), 0)] + both(0)


def p22(g):
    v, ops = g.doc(0, g.pick([1, 2, 3, 4]), 12)
    reg = 1
    for _ in range(g.r.randint(1, 4)):
        via = g.pick(["view", "try", "try", "buf", "own", "clone", "clonebig"])
        pos = g.pick(g.positions(v) if via == "try" else g.containers(v))
        pre = []
        if via == "try":
            pre = g.pre()
        ops.append({"op": "ext", "reg": 0, "pos": pos, "via": via, "pre": pre, "reg2": reg})
        ops.append(walk(reg, g=g))
        if g.p(0.3):
            ops.append({"op": "root", "reg": reg, "pos": []})
        reg += 1
    return ops


def p23(g):
    k = g.r.random()
    if k < 0.75:
        v = g.scalar() if g.p(0.6) else g.number()
        ops = [g.op_scalar(v, 0)] if g.p(0.85) else [g.op_parse(g.text(v), 0)]
        return ops + [{"op": "root", "reg": 0, "pos": []}, walk(0)]
    v, ops = g.doc(0, g.pick([0, 1, 2]), 6)
    return ops + [{"op": "root", "reg": 0, "pos": p} for p in g.r.sample(g.containers(v), min(3, len(g.containers(v))))]


def starved(g, ops, p=0.6):
    """Calls made when memory has run out, and made again if that was noticed."""
    out, crossed = [], None
    for o in ops:
        if o["op"] in ("b_root", "b_open", "b_push", "scalar", "path", "query", "exists", "ext") or (o["op"] == "parse" and o["via"] == "val"):
            tries = []
            while g.p(p):
                t = dict(o, oom=g.pick([0, 0, 0, 1, 2, 3, 4, 5, 6] if o["op"] in ("query", "parse", "path", "exists") else [0, 0, 0, 0, 1]))
                # only that allocation fails, and whatever is tried after it works
                if g.p(0.4):
                    t["once"] = True
                # something else was tried before it
                if o["op"] in ("b_push", "b_open") and g.p(0.3):
                    t = crossed = {"op": "b_push", "key": o["key"], "val": g.scalar(), "pad": 0, "oom": 0}
                elif o["op"] in ("b_push", "b_open") and g.p(0.15):
                    t = crossed = {"op": "b_open", "key": o["key"], "kind": g.pick(["arr", "obj"]), "n": g.pick([0, 1, 30, 300]), "sorted": False, "oom": 0}
                tries.append(t)
            tries.append(dict(o))
            out += tries[:1] + [dict(t, again=True) for t in tries[1:]]
            continue
        out.append(o)
    # keys may end up in another container than planned
    return [dict(o, sorted=False) if o.get("sorted") and crossed else o for o in out]


def p24(g):
    k = g.r.random()
    if k < 0.6:
        v = g.value(g.pick([1, 2, 2, 3, 4]), 8, 1.0)
        if v["t"] not in ("arr", "obj"):
            v = {"t": "arr", "a": [v, Str(g.string()), v]}
        d = g.dest(0)
        d.pop("reg")
        if g.p(0.7):
            d.update(cap=g.r.randint(0, 12))
        ops = g.build(v, 0, 0.04 if g.p(0.3) else 0, dest=dict(d, reg=0))
        return starved(g, ops) + [walk(0)] + (g.build(v, 1) + [walk(1)] if g.p(0.3) else [])
    if k < 0.7:
        v = g.scalar() if g.p(0.5) else Str("x" * g.r.randint(0, 40))
        w = len(v.get("s", [])) + 6
        ops = [dict(g.op_scalar(v, i, 0)) for i in range(3)]
        for o in ops:
            if o["via"] == "to" and g.p(0.6):
                o["cap"] = len(o["pre"]) + g.r.randint(0, w)
        return starved(g, ops) + both(0)
    if k < 0.77:
        # memory running out at any member of a document
        def mixed(d):
            n = g.pick([1, 2, 5, 10, 20, 40])
            xs = [mixed(d - 1) if d and g.p(0.1) else g.pick([NULL, Bool(True), Bool(False), Int(g.r.randint(-99, 999)), Str("s" * g.r.randint(0, 30))]) for _ in range(n)]
            if g.p(0.4):
                return {"t": "arr", "a": xs}
            return {"t": "obj", "o": [{"k": B("%s%d" % ("k" * g.r.randint(0, 30), i)), "v": x} for i, x in enumerate(xs)]}
        out = []
        for i in range(4):
            o = dict(g.op_parse(g.text(mixed(g.pick([0, 1, 2]))), i, "val"))
            n = g.pick([1, 2, 3])
            for j in range(n):
                out.append(dict(o, oom=g.r.randint(0, 7), again=j > 0, once=g.p(0.6)))
            out.append(dict(o, again=True))
        return out + [x for i in range(4) for x in (both(i) if g.p(0.3) else [])]
    if k < 0.8:
        t = g.json_text(g.pick([0, 1, 2, 3]), 10)
        return starved(g, [g.op_parse(t, i, "val") for i in range(2)]) + both(1)
    if k < 0.84:
        # large headers
        kind, n = g.pick(["arr", "obj"]), g.pick([30, 300, 1000, 5000, 65535])
        size = 7 + n * (5 if kind == "arr" else 4)
        root = dict(g.dest(0), op="b_root", kind=kind, n=n, sorted=False)
        root["cap"] = g.pick([0, 5, 200, 2000, size - 1, size, g.r.randint(0, size + 9)])
        root.pop("reg")
        inner = {"op": "b_open", "key": B("k"), "kind": g.pick(["arr", "obj"]), "n": g.pick([0, 3, 300, 5000, 65535]), "sorted": False}
        return starved(g, [root, {"op": "b_push", "key": B("a"), "val": g.scalar(), "pad": 0}, inner], 0.8) + [{"op": "b_drop"}] * 2
    if k < 0.88:
        # many matches, long lists of subscripts
        n = g.r.randint(20, 130)
        e = lambda: g.pick([NULL, Int(g.r.randint(0, 99)), Str("t"), {"t": "obj", "o": [{"k": B("a"), "v": Bool(True)}]}, {"t": "arr", "a": [NULL, Int(1)]}])
        v = {"t": "arr", "a": [e() for _ in range(n)]}
        some = ", ".join(g.pick(["%d" % g.r.randint(0, n), "last", "last-%d" % g.r.randint(0, n), "%d to last" % g.r.randint(0, n)]) for _ in range(g.r.randint(2, 70)))
        ops = g.make(v, 0)
        for _ in range(3):
            t = g.pick(["$[*]", "$[0 to last]", "$..a", "$[*].*", "$[*][*]", "$[*].type()", "$[*].count()", "$[%s]" % some, "$[%s].a" % some, "$" + "[0]" * g.r.randint(5, 60), "$" + ".abc" * g.r.randint(5, 60)])
            o = query(g, v, 0, t)
            ops += starved(g, [{"op": "path", "text": o["path"]}, o, {"op": "exists", "reg": 0, "pos": [], "path": o["path"]}], 0.7)
        return ops
    if k < 0.95:
        v, ops = qdoc(g)
        for _ in range(4):
            o = query(g, v, 0, g.path(v, method=0.15, w=0.03))
            ops += starved(g, [{"op": "path", "text": o["path"]}, o, {"op": "exists", "reg": 0, "pos": [], "path": o["path"]}])
        return ops
    v, ops = qdoc(g)
    for i in range(3):
        pos = g.pick(g.positions(v)) if g.p(0.5) else g.pick(g.containers(v))
        via = "buf" if pos in g.containers(v) and g.p(0.5) else "try"
        ops += starved(g, [{"op": "ext", "reg": 0, "pos": pos, "via": via, "pre": g.pre() if via == "try" else [], "reg2": 1}]) + [walk(1)]
    return ops


def reads(g, v, reg, n, whole=None):
    """Reading calls of all kinds."""
    ops = []
    for _ in range(n):
        k = g.r.random()
        pos = g.pick(g.containers(v)) if g.p(0.4) and g.containers(v) else []
        x = g.at(v, pos)
        if k < 0.2:
            ops.append(walk(reg, pos if g.p(0.3) else (), g=g))
        elif k < 0.3:
            ops.append({"op": "root", "reg": reg, "pos": pos})
        elif k < 0.4:
            ops.append(fmt(g, reg, pos))
        elif k < 0.62 and x["t"] == "obj":
            ks = [m["k"] for m in x["o"]]
            g.r.shuffle(ks)
            ops.append({"op": "obj", "reg": reg, "pos": pos, "keys": ks[:4] + [B(g.key())]})
        elif k < 0.62 and x["t"] == "arr":
            ops.append({"op": "arr", "reg": reg, "pos": pos, "idx": sorted({0, len(x["a"]) - 1, len(x["a"]) // 2, g.r.randint(0, len(x["a"]) + 1)} - {-1})})
        elif k < 0.68 and whole is not None:
            ops.append({"op": "eq", "a": reg, "apos": [], "b": whole, "bpos": [], "fn": True})
        elif k < 0.74:
            ops.append({"op": "exists", "reg": reg, "pos": [], "path": B(g.path(v, method=0.03))})
        else:
            ops.append(query(g, v, reg, g.path(v, method=0.15)))
    return ops


def p25(g):
    if g.p(0.1):
        v = g.scalar()
        ops = [g.op_scalar(v, 0, 0)]
    else:
        v, ops = qdoc(g) if g.p(0.4) else g.doc(0)
    for i in range(g.r.randint(2, 7)):
        at = g.pick([g.r.randint(0, 12), -g.r.randint(1, 12), g.r.randint(0, 100000), g.r.randint(0, 100000)])
        ops += [{"op": "cut", "reg": 0, "reg2": 1, "at": at}] + reads(g, v, 1, g.r.randint(1, 4), 0)
    return ops


def chaos(g):
    """A bit of everything on two documents."""
    v, ops = qdoc(g) if g.p(0.5) else g.doc(0)
    for _ in range(g.r.randint(2, 6)):
        k = g.r.random()
        pos = g.pick(g.containers(v)) if g.p(0.5) else []
        x = g.at(v, pos)
        if k < 0.15:
            ops.append(fmt(g, 0, pos))
        elif k < 0.35:
            ops.append(query(g, v, 0, g.path(x, method=0.15), pos))
        elif k < 0.45:
            ops.append({"op": "exists", "reg": 0, "pos": pos, "path": B(g.path(x, method=0.05))})
        elif k < 0.55:
            ops.append({"op": "rt", "reg": 0, "via": g.pick(["compact", "pretty", "json", "tree", "bincode"]), "reg2": 1})
        elif k < 0.65:
            ops.append({"op": "ext", "reg": 0, "pos": pos, "via": g.pick(["view", "buf", "own", "clone"]), "pre": [], "reg2": 1})
        elif k < 0.75:
            ops += g.make(v if g.p(0.5) else mutate(g, v), 1)
            ops.append({"op": "eq", "a": 0, "apos": [], "b": 1, "bpos": []})
        elif k < 0.83 and x["t"] == "arr":
            ops.append({"op": "arr", "reg": 0, "pos": pos, "idx": [0, 1, 5]})
        elif k < 0.9 and x["t"] == "obj":
            ops.append({"op": "obj", "reg": 0, "pos": pos, "keys": [B(g.key()) for _ in range(3)]})
        elif k < 0.95:
            ops.append({"op": "root", "reg": 0, "pos": pos})
        else:
            ops += both(0)
    return ops


PROFILE = {"P%02d" % i: globals()["p%02d" % i] for i in range(1, 26)}
EXTRA = {"P06": [(p06dup, 0.06)], "P12": [(p06dup, 0.04)], "P07": [(p10, 0.1)], "P05": [(p08, 0.02)], "P16": [(p18, 0.05)], "P15": [(p17, 0.05)],
         "P17": [(p16, 0.05)], "P01": [(p21, 0.04)], "P21": [(p01, 0.1)], "P13": [(p04, 0.03)]}


SMALL = {"P02", "P08", "P14"}       # where long strings say nothing


def long_path(g):
    """A path text of many kilobytes, faulty or not at its far end."""
    n = g.pick([255, 256, 300, 5000, 32767, 32768, 65533, 65534, 65535, 65536, 65537, 70000, 100000])
    m = min(n, 2500) + g.r.randint(0, 3)
    blank = g.pick(" \t\n\r\f") * n
    head = g.pick([lambda: "$" + " " * n, lambda: " " * n + "$", lambda: "$." + blank + "a", lambda: "$.a" + blank, lambda: "$[" + blank + "1]", lambda: "$[1" + blank + "]",
                   lambda: "$[last" + blank + "- 1]", lambda: "$[last -" + blank + "1]", lambda: "$[1 to" + blank + "2]", lambda: "$[1," + blank + "2]", lambda: "$[*]" + blank,
                   lambda: "$[" + "0" * n + g.pick(["1", "2147483647", "2147483648"]) + "]", lambda: "$[last - " + "0" * n + "7]", lambda: "$[" + "9" * n + "]",
                   lambda: "$." + g.pick("aZ") * n, lambda: "$.." + "k9" * (n // 2), lambda: '$."' + g.pick(["x", "\u00e9", "\u4e2d", "\\n", '\\"', "\\\\"]) * (n // 2) + '"',
                   lambda: '$.."' + "y" * n + g.pick(['"', "", '\\"', '\\a"']), lambda: "$" + ".a" * m, lambda: "$" + "[0]" * m, lambda: "$" + ".*" * m, lambda: "$" + "..b" * m,
                   lambda: "$" + ' ."q"' * m, lambda: "$[" + "1," * m + "2]", lambda: "$[" + "last - 1 , " * m + "0 to last]", lambda: "$.count" + blank + "()", lambda: "$.size(" + blank + ")",
                   lambda: "$.type()" + blank])()
    return [{"op": "path", "text": B(head + t)} for t in g.r.sample(["", "", ".b", "[0]", "[*]", ".count()", "x", "[", '."', ".", "[2147483648]", "[-1]", ".b()", "\u00e9", "$", "[]", '."\\q"', "[1,]", "[1 2]"], 3)]


def long_cases(prop, n, seed):
    """The same with a string or key or two of many kilobytes."""
    out = []
    g = Gen(hash_seed("long", prop, seed))
    if prop == "P14":
        return [long_path(g) for _ in range(2 * n)]
    while len(out) < n and prop not in SMALL:
        g.long = budget = g.pick([1, 1, 2])
        c = PROFILE[prop](g)
        made = sum(weight(o) for o in c)
        if g.long < budget and 4000 < made < 400000:
            out.append(c)
    g.long = 0
    for _ in range(max(2, n // 6) if prop in ("P03", "P04", "P20") else 0):
        v = g.pick([Str(g.far()), {"t": "arr", "a": [Str(g.far())]}, {"t": "obj", "o": [{"k": B("k"), "v": Str(g.far())}]}])
        out.append(g.make(v, 0) + [{"P03": fmt(g, 0, []), "P04": {"op": "rt", "reg": 0, "via": g.pick(["compact", "pretty", "json"]), "reg2": 1},
                                    "P20": query(g, v, 0, g.pick(["$", "$", "$[*]", "$.*", "$[0]", "$..k"]))}[prop]])
    return out


DEEP = ["P03", "P04", "P05", "P06", "P11", "P12", "P13", "P15", "P16", "P17", "P18", "P19", "P20", "P22", "P23", "P25"]


def deep_case(g, prop):
    """The same on containers nested up to the limit, asked all the way down."""
    d = g.pick([30, 33, 50, 63, 64, 65, 66, 90, 98, 99, 100])
    leaf = g.pick([NULL, Bool(True), Int(7), Str("leaf"), {"t": "arr", "a": []}, {"t": "obj", "o": []}])
    d -= leaf["t"] in ("arr", "obj")
    v, steps = leaf, []
    for i in range(d):
        x = g.pick([None, None, None, NULL, Int(1), Str("s")] + ([{"t": "arr", "a": []}] if i else []))
        if g.p(0.5):
            after = g.p(0.5)
            steps.append("[0]" if x is None else g.pick(["[1]", "[last]", "[last to 1]"]) if not after else g.pick(["[0]", "[last - 1]", "[0 to 0]"]))
            v = {"t": "arr", "a": [v] if x is None else [v, x] if after else [x, v]}
        else:
            steps.append(".k")
            v = {"t": "obj", "o": [{"k": B("k"), "v": v}] + ([] if x is None else [{"k": B(g.pick(["a", "kk"])), "v": x}])}
    steps.reverse()
    spots, at, x = [[]], [], v
    for s in steps:
        i = [j for j, y in enumerate(g.kids(x)) if y["t"] in ("arr", "obj")]
        i = max(i, key=lambda j: depth_of(g.kids(x)[j])) if i else None
        if i is None:
            break
        at, x = at + [i], g.kids(x)[i]
        spots.append(at)
    low = lambda: g.pick([spots[-1], g.pick(spots), g.pick(spots[-3:])])
    ops = g.make(v, 0)

    def text():
        loose = lambda s: "[*]" if s[0] == "[" and g.p(0.1) else "" if s[0] == "[" and g.p(0.2) else s
        i = g.r.randint(0, len(steps))
        k = g.r.random()
        if k < 0.4:
            return "$" + "".join(steps[:i])
        if k < 0.6:
            return "$" + "".join(loose(s) for s in steps[:i])
        j = g.r.randint(i, len(steps))
        return "$" + "".join(steps[:i]) + g.pick(["..k", "..k", "..kk", "..a"]) + ("".join(steps[j:]) if g.p(0.3) else g.pick(["", "[0]", ".k", "[*]", "[last]"]))

    for _ in range(2):
        if prop == "P03":
            ops.append(fmt(g, 0, g.pick([[], low()])))
        elif prop == "P04":
            ops.append({"op": "rt", "reg": 0, "via": g.pick(["compact", "pretty", "json", "tree", "bincode"]), "reg2": 1})
        elif prop in ("P06", "P12"):
            ops.append({"op": "obj", "reg": 0, "pos": g.pick([p for p in spots if g.at(v, p)["t"] == "obj"] or [[]]), "keys": [B(x) for x in ("k", "a", "kk", "", "kkk")]})
        elif prop == "P11":
            ops.append({"op": "arr", "reg": 0, "pos": g.pick([p for p in spots if g.at(v, p)["t"] == "arr"] or [[]]), "idx": [0, 1, 2]})
        elif prop == "P13":
            w = v
            if g.p(0.6):
                p = g.pick(spots[-2:])
                w = json.loads(json.dumps(v))
                y = g.at(w, p)
                if y["t"] == "arr":
                    y["a"] = y["a"] + [NULL] if g.p(0.5) or not y["a"] else [Bool(False)] + y["a"][1:]
                else:
                    y["o"] = y["o"] + [{"k": B("zz"), "v": NULL}] if g.p(0.5) or not y["o"] else [{"k": y["o"][0]["k"], "v": Bool(False)}] + y["o"][1:]
                if depth_of(w) > 100:
                    w = v
            ops += g.make(w, 1) + [{"op": "eq", "a": 0, "apos": [], "b": 1, "bpos": []}]
        elif prop == "P17":
            t = text()
            ops += [{"op": "query", "reg": 0, "pos": [], "path": B(t), **WRAP}, {"op": "exists", "reg": 0, "pos": [], "path": B(t)}]
        elif prop in ("P15", "P16", "P18", "P19", "P20"):
            q = query(g, v, 0, text() + (g.pick([".count()", ".size()", ".type()"]) if prop == "P19" or g.p(0.1) else ""))
            ops.append(q if g.p(0.2) else dict(q, **WRAP) if prop in ("P15", "P16") else dict(q, wrap=True))
        elif prop == "P22":
            ops += [{"op": "ext", "reg": 0, "pos": low(), "via": g.pick(["view", "try", "buf", "own", "clone", "clonebig"]), "pre": [], "reg2": 1}, walk(1, g=g)]
        elif prop == "P23":
            ops.append({"op": "root", "reg": 0, "pos": low()})
        elif prop == "P25":
            t = text()
            ops += [{"op": "cut", "reg": 0, "reg2": 1, "at": g.pick([-g.r.randint(1, 12), g.r.randint(0, 100000)])},
                    g.pick([walk(1, g=g), fmt(g, 1, []), {"op": "eq", "a": 1, "apos": [], "b": 0, "bpos": [], "fn": True}]),
                    {"op": "exists", "reg": 1, "pos": [], "path": B(t)}, query(g, v, 1, t)]
    return ops + (both(0) if prop in ("P05", "P06", "P11", "P12") else [])


def deep_cases(prop, n, seed):
    g = Gen(hash_seed("deep", prop, seed))
    return [deep_case(g, prop) for _ in range(n)] if prop in DEEP else []


NEEDLE = ["P15", "P16", "P17", "P18", "P19", "P20"]


def needle_case(g, prop):
    """Many children alike, and a few that differ, of a container somewhere in a document."""
    names = ["a", "b", "key", "zz"]
    one = lambda: g.pick([Int(1), NULL, Bool(False), Str("s"), Str("")])
    plain = g.pick([NULL, NULL, Int(0), Bool(True), Bool(False), Str(""), Str("x"), {"t": "arr", "a": []}, {"t": "obj", "o": []}, {"t": "arr", "a": [Int(5)]},
                    {"t": "obj", "o": [{"k": B("q"), "v": Int(2)}]}, {"t": "arr", "a": [{"t": "arr", "a": []}]}, {"t": "arr", "a": [{"t": "obj", "o": [{"k": B("q"), "v": NULL}]}]}])
    name = g.pick(names)

    def needle():
        x = one()
        tail = ""
        for _ in range(g.pick([1, 1, 1, 2, 2, 3])):
            k = g.r.random()
            if k < 0.5:
                x, tail = {"t": "obj", "o": [{"k": B(name), "v": x}] + ([{"k": B("q"), "v": one()}] if g.p(0.3) else [])}, "." + name + tail
            elif k < 0.8:
                i = g.pick([0, 1, 2])
                x, tail = {"t": "arr", "a": [one() for _ in range(i)] + [x]}, "[%s]" % g.pick([str(i), "last", "*", "%d to last" % i]) + tail
            else:
                x = {"t": "arr", "a": [x]}
        return x, tail or "[*]"

    n = g.pick([2, 3, 4, 5, 6, 7, 8, 9, 12, 17, 20])
    if prop in ("P19", "P20") and g.p(0.15):
        n = g.pick([100, 127, 128, 255, 256, 257, 300])
    xs = [plain] * n
    tails, at = ["", "." + name], []
    for _ in range(g.pick([0, 1, 1, 1, 2, 2])):
        x, t = needle()
        at.append(g.pick([g.r.randrange(n), g.r.randrange(n), n - 1]))
        xs[at[-1]] = x
        tails += [t] * 3
    arr = g.p(0.7)
    v = {"t": "arr", "a": xs} if arr else {"t": "obj", "o": [{"k": B("%s%d" % (g.pick(["k", "k", "kk"]), 10 + i)), "v": x} for i, x in enumerate(xs)]}
    if not arr and g.p(0.3):
        v["o"].append({"k": B(name), "v": plain})
    head = "$"
    for _ in range(g.pick([0, 0, 0, 1, 1, 2])):
        if g.p(0.5):
            k = g.pick(names)
            v = {"t": "obj", "o": [{"k": B(k), "v": v}] + ([{"k": B("m"), "v": one()}] if g.p(0.3) else [])}
            head = "$." + k + head[1:]
        else:
            v = {"t": "arr", "a": [v] + [one()] * g.pick([0, 0, 2])}
            head = "$[0]" + head[1:]
    ops = g.make(v, 0)

    def some():
        if not arr:
            return g.pick([".*", ".*", ""])
        i = lambda: (lambda j: g.pick(["%d" % j, "%d" % j, "last - %d" % max(0, n - 1 - j), "last" if j >= n - 1 else "%d" % j]))(g.pick(at + [0, 0, n // 2, n - 1, n, n + 2, g.r.randrange(n)]))
        span = lambda: "%s to %s" % (i(), i())
        if g.p(0.06):
            # A very long list, of which little selects anything.
            xs = [g.pick(["%d" % (n + 1), "last - %d" % (n + 5), "%d to %d" % (n, n + 3), "2147483647"])] * g.pick([100, 255, 256, 300, 1023, 1024, 1100, 2000])
            for _ in range(g.pick([1, 2, 3])):
                xs.insert(g.pick([len(xs), len(xs) - 1, g.r.randint(0, len(xs))]), g.pick([i, i, span])())
            return "[" + ",".join(xs) + "]"
        return g.pick(["[*]", "", "[%s]" % span(), "[%s]" % span(), "[0 to last]", "[last to 0]", "[%s]" % ",".join(g.pick([i, i, span])() for _ in range(g.pick([2, 3, 4, 6]))), "[%s]" % i()])

    for _ in range(3):
        k = g.r.random()
        p = head + some() + g.pick(tails) if k < 0.76 else head + some() + g.pick(["[0]", "[last]", "[*]", "[0 to 0]"]) * g.pick([16, 60, 127, 128, 255, 256, 300, 700]) + g.pick(tails) if k < 0.8 else head + ".." + name if k < 0.9 else "$.." + name
        if prop == "P19" or prop in ("P18", "P20") and g.p(0.15):
            if g.p(0.3):
                p = head + g.pick(["", "[*]", "[0]", "[last]", "[0 to last]"])
            p += g.pick([".count()", ".size()", ".type()"])
        if prop == "P20":
            for m in g.r.sample([(True, False, False), (True, True, False), (True, False, True), (True, True, True), (False, False, False)], 3):
                ops.append({"op": "query", "reg": 0, "pos": [], "path": B(p), "wrap": m[0], "qb": m[1], "rb": m[2], **told(g)})
            continue
        q = query(g, v, 0, p)
        if prop != "P18" and g.p(0.8):
            q.update(WRAP)
        ops.append(q)
        if "(" not in p and g.p(1.0 if prop == "P17" else 0.2):
            ops.append({"op": "exists", "reg": 0, "pos": [], "path": q["path"]})
    return ops


def needle_cases(prop, n, seed):
    g = Gen(hash_seed("needle", prop, seed))
    return [needle_case(g, prop) for _ in range(n)] if prop in NEEDLE else []


def weight(x):
    """How many bytes a call spells out."""
    if isinstance(x, dict):
        return sum(weight(y) for y in x.values())
    if isinstance(x, list):
        return len(x) if x and isinstance(x[0], int) else sum(weight(y) for y in x)
    return 0


def cases(prop, n, seed):
    out = []
    g = Gen(hash_seed(prop, seed))
    while len(out) < n:
        f = PROFILE[prop]
        for e, x in EXTRA.get(prop, []):
            if g.p(x):
                f = e
        if g.p(0.03):
            f = chaos
        out.append(f(g) if prop not in ASKED else asked_again(g, f(g)))
    return out


ASKED = {"P15", "P16", "P17", "P18", "P19", "P20"}


def asked_again(g, ops):
    """Now and then some of the paths are used again, on other documents or parts of them (the harness keeps compiled paths)."""
    qs = [o for o in ops if o["op"] in ("query", "exists")]
    if not qs or len(qs) > 40 or not g.p(0.25):
        return ops
    regs = sorted({o["reg"] for o in qs})
    more = [dict(o, reg=g.pick(regs), pos=[]) for o in g.r.sample(qs, min(len(qs), 3))]
    if g.p(0.6):
        ops = ops + g.make(g.value(g.pick([1, 2, 3]), 5, 0.8), regs[0])
    return ops + more


def hash_seed(*xs):
    h = 1469598103934665603
    for c in "|".join(map(str, xs)).encode():
        h = ((h ^ c) * 1099511628211) & (2**64 - 1)
    return h

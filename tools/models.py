"""Models explored by TLC on their own, and how what they emit is replayed in the real code.

Each model is a TLA+ module with its own state space.  TLC checks its invariants
on every state and prints a record ("CASE...") for every input it reaches; the
functions below turn such records into calls of the harness.
"""
import json
import os
import re
import random
import shutil

import profiles
import vlib
from gen import Gen, B, Str, Int
from profiles import walk, both, hash_seed, WRAP
from vlib import ToolError

CASE = re.compile(r'^"CASE(.*)"$')


class Model:
    """module: explored with these constants and invariants; replay(g, records, prop, tier) makes the cases."""

    def __init__(self, name, module, consts, invs, replay, take, workers=3, timeout=600):
        self.name, self.module, self.consts, self.invs = name, module, consts, invs
        self.replay, self.take, self.workers, self.timeout = replay, take, workers, timeout

    def start(self, prop, tier):
        return Run(self, prop, tier)


class Run:
    def __init__(self, model, prop, tier):
        self.m, self.prop, self.tier, self.name = model, prop, tier, model.name
        self.d = vlib.spec_dir("%s.%s" % (prop, model.name.replace(" ", "_")))
        cfg = model.module + "_.cfg"
        with open(os.path.join(self.d, cfg), "w") as f:
            f.write("INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n")
            if model.consts:
                f.write("CONSTANTS\n" + "\n".join("  %s %s %s" % (k, "<-" if str(v)[0].isalpha() else "=", v) for k, v in model.consts.items()) + "\n")
            f.write("INVARIANTS " + " ".join(model.invs) + "\n")
        self.p = vlib.tlc(self.d, model.module, cfg, {}, model.workers, 6, timeout=model.timeout)
        self.states = self.generated = 0
        self.emitted = self.used = 0

    def finish(self, seed):
        text = vlib.tlc_wait(self.p)
        if "Model checking completed. No error has been found" not in text:
            raise ToolError("the model %s failed:\n%s" % (self.name, "\n".join(x for x in text.split("\n") if not x.startswith('"CASE'))[-3000:]))
        self.generated, self.states = map(int, vlib.STATES.findall(text)[-1])
        lines = sorted(set(x for x in text.split("\n") if x.startswith('"CASE')))
        shutil.rmtree(self.d, ignore_errors=True)
        self.emitted = len(lines)
        g = Gen(hash_seed(self.prop, self.name, seed))
        if self.m.take and len(lines) > self.m.take:
            lines = g.r.sample(lines, self.m.take)
        self.used = len(lines)
        return self.m.replay(g, [json.loads(json.loads(x)[4:]) for x in lines], self.prop, self.tier)

    def note(self):
        return {"model": self.name, "module": self.m.module, "constants": {k: str(v) for k, v in self.m.consts.items()},
                "invariants": [i for i in self.m.invs if i != "Emitted"], "states": self.states, "inputs_enumerated": self.emitted, "inputs_replayed": self.used}


def chunks(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


# ------------------------------------------------------------------ documents
def docs(g, recs, prop, tier):
    vs = [r["v"] for r in recs]
    rounds = 3 if tier == "thorough" and len(vs) < 5000 else 1
    return [ops for _ in range(rounds) for i, v in enumerate(vs) for ops in on_doc(g, v, vs, prop)]


def on_doc(g, v, vs, prop):
    cont = v["t"] in ("arr", "obj")
    pos = g.containers(v)
    if prop == "P01":
        return [[x for i in range(3) for x in [g.op_parse(g.ws(0.3) + g.text(v, 0.4 if i else 0, 0.3 if i else 0) + g.ws(0.3), 0)] + both(0)]]
    if prop == "P03":
        return [g.make(v, 0) + [{"op": "fmt", "reg": 0, "pos": p, "pretty": q, "via": g.pick(["disp", "to", "app"]), "rooms": profiles.rooms(g)} for p in pos for q in (False, True)]]
    if prop == "P04":
        return [g.make(v, 0) + [{"op": "rt", "reg": 0, "via": via, "reg2": i + 1} for i, via in enumerate(["compact", "pretty", "json", "tree", "bincode"])]]
    if prop in ("P05", "P09"):
        if not cont:
            return [[g.op_scalar(v, i, 0) for i in range(2)] + [g.op_parse(g.text(v), i) for i in (2, 3)]]
        one = g.build(v, 0)
        out = list(one)
        for r in (1, 2):
            d = g.dest(r, 0.3)
            d.pop("reg")
            for o in one:
                out.append(dict(o, reg=r) if o["op"] == "b_fin" else dict(o, **d) if o["op"] == "b_root" else dict(o))
        t = g.text(v, 0.1)
        return [out, [g.op_parse(t, i, "to" if i else None) for i in range(3)]]
    if prop == "P07":
        return [g.build(v, 0) + [walk(0, g=g)] + (g.build(v, 1, 0.3) + [walk(1, g=g)])] if cont else []
    if prop == "P11":
        return [g.make(v, 0) + [{"op": "arr", "reg": 0, "pos": p, "idx": list(range(len(g.kids(g.at(v, p))) + 2))} for p in pos]]
    if prop in ("P06", "P12"):
        return [g.make(v, 0) + [{"op": "obj", "reg": 0, "pos": p, "keys": [B(k) for k in ("", "a", "b", "aa", "ab")]} for p in pos]]
    if prop == "P13":
        out = []
        for w in [v, g.pick(vs), profiles.mutate(g, v)]:
            out.append(g.make(v, 0) + g.make(w, 1) + [{"op": "eq", "a": 0, "apos": [], "b": 1, "bpos": []},
                       {"op": "eq", "a": 0, "apos": g.pick(pos), "b": 1, "bpos": g.pick(g.containers(w))}])
        return out
    if prop == "P20":
        ops = g.make(v, 0)
        for p in ([B("$")] if not cont else [B("$"), B("$[*]"), B("$.*")]):
            for m in [(True, False, False), (True, True, False), (True, False, True), (False, False, False)]:
                ops.append({"op": "query", "reg": 0, "pos": [], "path": p, "wrap": m[0], "qb": m[1], "rb": m[2], **profiles.told(g)})
        return [ops]
    if prop == "P22":
        ops = g.make(v, 0)
        for p in g.positions(v):
            for via in (["view", "try", "buf", "own", "clone", "clonebig"] if p in pos else ["try"]):
                ops += [{"op": "ext", "reg": 0, "pos": p, "via": via, "pre": g.pre() if via == "try" else [], "reg2": 1}, walk(1, g=g)]
        return [c for c in [ops[:200]]]
    if prop == "P23":
        return [(g.make(v, 0) if cont else [g.op_scalar(v, 0, 0)]) + [{"op": "root", "reg": 0, "pos": p} for p in pos] + [walk(0, g=g)]]
    if prop == "P25":
        ops = g.make(v, 0)
        for at in g.r.sample(range(-24, 24), 8):
            ops += [{"op": "cut", "reg": 0, "reg2": 1, "at": at}, walk(1, g=g)] + profiles.reads(g, v, 1, 3, 0)
        return [ops]
    raise KeyError(prop)


# -------------------------------------------------------------------- queries
FORMS = [(False, False, False), (True, False, False), (True, True, False), (True, False, True), (True, True, True)]


def queries(g, recs, prop, tier):
    vs = [r["v"] for r in recs if "v" in r]
    paths = [r["path"] for r in recs if "path" in r]
    out = []
    for i, v in enumerate(vs):
        mine = g.r.sample(paths, min(len(paths), 40 if tier == "thorough" else 8 if len(vs) > 100 else 16))
        for part in chunks(mine, 8):
            out.append(g.make(v, 0) + asked(g, v, part, prop))
    return out


def asked(g, v, paths, prop):
    ops = []
    for p in paths:
        if prop in ("P18", "P20"):
            for m in g.r.sample(FORMS, 3):
                ops.append({"op": "query", "reg": 0, "pos": [], "path": p, "wrap": m[0], "qb": m[1], "rb": m[2], **(profiles.told(g) if prop == "P20" else {})})
        else:
            ops.append({"op": "query", "reg": 0, "pos": [], "path": p, **WRAP})
            if prop == "P17":
                ops.append({"op": "exists", "reg": 0, "pos": [], "path": p})
    return ops


def subs(g, recs, prop, tier):
    out = []
    by = {}
    for r in recs:
        by.setdefault(r["n"], []).append(r["path"])
    for n, ps in by.items():
        for part in chunks(ps, 16):
            v = {"t": "arr", "a": [Int(i) for i in range(n)]}
            out.append(g.make(v, 0) + asked(g, v, part, prop))
    return out


# ---------------------------------------------------------------------- texts
def paths(g, recs, prop, tier):
    return [[{"op": "path", "text": r["text"]} for r in part] for part in chunks(recs, 50)]


def texts(g, recs, prop, tier):
    if prop == "P01":
        recs = [r for r in recs if r["ok"]]
    out = []
    for part in chunks(recs, 20):
        ops = []
        for r in part:
            ops.append(g.op_parse(bytes(r["text"]).decode(), 0, g.pick(["own", "own", "to", "val"])))
            if r["ok"]:
                ops.append(walk(0, g=g))
        out.append(ops)
    return out


def numbers(g, recs, prop, tier):
    out = []
    for part in chunks(recs, 20):
        ops = []
        if prop in ("P01", "P02"):
            for r in part:
                ops += [g.op_parse(bytes(r["text"]).decode(), 0), walk(0)]
        else:
            for r in part:
                t = bytes(r["text"]).decode()
                ops += [g.op_parse(t, 0)] + ([{"op": "root", "reg": 0, "pos": []}] if prop == "P23" else [g.op_parse("[" + t + "," + t + "]", 1)])
                if prop == "P03":
                    ops += [{"op": "fmt", "reg": 0, "pos": [], "pretty": False, "via": "disp"}]
                if prop == "P04":
                    ops += [{"op": "rt", "reg": 0, "via": g.pick(["compact", "json", "tree", "bincode"]), "reg2": 2}]
        out.append(ops)
    return out


def types(g, recs, prop, tier):
    codes = [r["code"] for r in recs]
    return [[{"op": "types", "codes": part}] for part in (codes, list(reversed(codes)))]


# ------------------------------------------------------------------- builders
def builders(g, recs, prop, tier):
    out = []
    for r in recs:
        calls, pre = r["calls"], r["prefix"]
        d = g.dest(0)
        d.pop("reg")
        ops = []
        kinds, items = [], []
        # the containers of the prefix, the innermost of which is the root of the calls
        for i in range(1, pre + 1):
            last = i == pre
            kd = calls[0]["kind"] if last else ("obj" if i % 3 == 1 else "arr")
            n = calls[0]["n"] if last else 1
            o = {"op": "b_root" if i == 1 else "b_open", "kind": kd, "n": n, "sorted": True}
            if i == 1:
                o.update(d)
            else:
                o["key"] = B("a") if kinds[-1] == "obj" else []
                items[-1] += 1
            ops.append(o)
            kinds.append(kd)
            items.append(0)
        for c in calls[1:]:
            key = [97 + items[-1]] if kinds and kinds[-1] == "obj" else []
            more = {"kx": g.pick([65536, 65536, 65537, 70000]), "key": []} if c["long"] else {"key": key}
            if c["op"] == "push":
                ops.append({"op": "b_push", "val": g.pick([{"t": "bool", "b": True}, Str("x"), Int(7), {"t": "null"}]), "pad": 0, **more})
                items[-1] += c["ok"]
            elif c["op"] == "open":
                ops.append({"op": "b_open", "kind": c["kind"], "n": c["n"], "sorted": g.p(0.5), **more})
                if c["ok"]:
                    items[-1] += 1
                    kinds.append(c["kind"])
                    items.append(0)
            else:
                ops.append({"op": "b_fin", "reg": 0} if c["op"] == "fin" else {"op": "b_drop"})
                kinds.pop()
                items.pop()
        ops += [{"op": "b_fin", "reg": 0} for _ in kinds] + [walk(0, g=None if prop == "P24" else g)]
        out.append(profiles.starved(g, ops) if prop == "P24" else ops)
    return out


def key_orders(g, recs, prop, tier):
    out = []
    for r in recs:
        v = {"t": "obj", "o": [{"k": k, "v": Int(i + 1)} for i, k in enumerate(r["ks"])]}
        d = g.dest(0)
        d.pop("reg")
        srt = [m["k"] for m in v["o"]] == [m["k"] for m in g.sorted(v)]
        ops = [{"op": "b_root", "kind": "obj", "n": len(v["o"]), "sorted": srt and g.p(0.5), **d}]
        ops += [{"op": "b_push", "key": m["k"], "val": m["v"], "pad": 0} for m in v["o"]] + [{"op": "b_fin", "reg": 0}]
        out.append(ops + [{"op": "obj", "reg": 0, "pos": [], "keys": r["ks"] + r["absent"]}] + both(0))
    return out


# ------------------------------------------------------------------------ all
def catalogue(prop, tier):
    deep = tier == "thorough"
    doc = Model("documents", "MCDocs", {"MaxNodes": 4 if deep else 3, "Leaves": "DocLeaves", "Keys": "DocKeys"},
                ["RoundTrip", "Texts", "SelfDelimiting", "Views", "NoIdleByte", "Emitted"], docs, 4000 if deep else 250)
    qry = Model("queries", "MCQuery", {"MaxNodes": 4, "MaxSteps": 3 if deep else 2, "Leaves": "QLeaves", "Keys": "QKeys"},
                ["Readings", "ExistsIff", "Selected", "Methods", "Splits", "Reads", "Emitted"], queries, None)
    sub = Model("subscripts", "MCSubs", {"MaxLen": 5 if deep else 4}, ["Denoted", "Swapped", "Scalar", "Reads", "Emitted"], subs, None if deep else 3000)
    pth = Model("path automaton", "MCPath", {"MaxTokens": 6 if deep else 5}, ["Agree", "Position", "Again", "OnlyLast", "Emitted"], paths, None)
    jsn = Model("JSON automaton", "MCJson", {"MaxTokens": 6 if deep else 5}, ["Agree", "Depth", "Over", "Kept", "Emitted"], texts, None)
    bld = Model("builder histories", "MCBuilder", {"MaxCalls": 6 if deep else 4, "Prefix": 1},
                ["Shape", "Blocked", "NothingAfter", "NoTrace", "FinishIff", "Holds", "Emitted"], builders, 20000 if deep else 700)
    low = Model("builder histories at depth 98", "MCBuilder", {"MaxCalls": 5 if deep else 4, "Prefix": 98},
                ["Shape", "Blocked", "NothingAfter", "NoTrace", "FinishIff", "Emitted"], builders, 4000 if deep else 200)
    key = Model("key orders", "MCKeys", {"MaxKeys": 5 if deep else 4}, ["Stored", "Found", "SameSize", "Total", "Emitted"], key_orders, None if deep else 500)
    num = Model("numbers", "MCNum", {}, ["Canonical", "IsJson", "Moved", "Padded", "Signed", "Stored", "Rounded", "Emitted"], numbers, None if deep else 2000)
    big = Model("ropes", "MCBig", BIGCONSTS, ["Same"], lambda g, recs, prop, tier: [], None)
    wri = Model("writer", "MCWriter", {"MaxLen": 7 if deep else 5}, ["Kept", "Sharp", "Bounded"], lambda g, recs, prop, tier: [], None)
    typ = Model("type codes", "MCTypes", {}, ["IsType", "Own", "Only", "Starts", "Emitted"], types, None)
    use = {"P01": [doc, jsn, num], "P02": [jsn, num], "P03": [doc, wri], "P04": [doc], "P05": [doc, num], "P06": [doc, key], "P07": [doc, bld],
           "P08": [low], "P09": [doc], "P10": [bld], "P11": [doc], "P12": [doc, key], "P13": [doc], "P14": [pth], "P15": [qry], "P16": [sub],
           "P17": [qry, sub], "P18": [qry], "P19": [qry], "P20": [doc, qry], "P21": [big], "P22": [doc], "P23": [doc, num, typ], "P24": [bld], "P25": [doc]}
    if deep:
        for p, ms in {"P03": [num], "P04": [num], "P16": [qry], "P08": [bld], "P10": [low], "P24": [low], "P05": [big], "P09": [big]}.items():
            use[p] = use[p] + ms
    return use[prop]


BIGCONSTS = {}

------------------------------ MODULE Session -------------------------------
(***************************************************************************)
(* A session of API calls, as a state machine.                             *)
(*                                                                         *)
(* The state is what a caller holds: document registers, the stack of open *)
(* builders, and what earlier queries selected.  Each action is one public *)
(* call: it says which results are allowed in the current state and what   *)
(* the state is afterwards.  The calls and their results come from traces  *)
(* recorded from the real library (one case per line of the file named by  *)
(* the environment variable TRACE); a trace is a behaviour of the library  *)
(* exactly when every event of it is an allowed step here.                 *)
(*                                                                         *)
(* Every requirement carries the ids of the properties it belongs to.  A   *)
(* run judges the requirements of the property named by FOCUS ("ALL" for   *)
(* every one) and follows the observed state elsewhere.                    *)
(***************************************************************************)
EXTENDS Big, Builders, JsonText, PathQuery, Writer, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
Focus == IOEnv.FOCUS

VARIABLES c,      \* number of the case
          l,      \* next event of it
          docs,   \* register -> [v: value, bytes, src: how it was made, good: its bytes are a document]
          bld,    \* stack of open builders, the innermost last
          seen    \* answers of earlier queries: [doc (its bytes), pos, path, some]

vars == <<c, l, docs, bld, seen>>

Events == Cases[c].evs
e == Events[l]
r == e.r

Has_(x, f) == f \in DOMAIN x
Skipped == Has_(r, "skip")
Died    == Has_(r, "panic") \/ Has_(r, "crash")
ErrKind(x) == IF Has_(x, "err") THEN x.err.k ELSE "none"

(* Memory ran out in this call or an earlier one: from then on every call  *)
(* must do exactly what it would otherwise.                                *)
Starved == \/ Died /\ Has_(e, "oom")
           \/ \E i \in 1..l : Has_(Events[i].r, "fault")

(* The call reads a document that was cut short.                           *)
Reading == {"walk", "root", "arr", "obj", "fmt", "eq", "query", "exists"}
Cut == LET used == IF e.op = "eq" THEN {e.a, e.b} ELSE IF e.op \in Reading THEN {e.reg} ELSE {}
       IN  \E q \in used \cap DOMAIN docs : Has_(docs[q], "cut")

Judged(tags) == IF Cut THEN Focus \in {"ALL", "P25"} ELSE
                \/ Focus = "ALL" \/ Focus \in tags
                \/ Focus = "P24" /\ Starved
Req(tags, cond) == IF Judged(tags) THEN cond ELSE TRUE

-----------------------------------------------------------------------------
(* A key pushed twice stays twice, in either order.                        *)

RECURSIVE HasDup(_)
HasDup(x) == \/ x.t = "obj" /\ ~KeysSorted(x)
             \/ \E i \in 1 .. Len(Children(x)) : HasDup(Children(x)[i])

RECURSIVE Loose(_, _)
Loose(x, y) ==
    \/ x = y
    \/ /\ x.t = y.t /\ x.t \in {"arr", "obj"} /\ Len(Children(x)) = Len(Children(y))
       /\ IF x.t = "arr" THEN \A i \in 1 .. Len(x.a) : Loose(x.a[i], y.a[i])
          ELSE /\ \A i \in 1 .. Len(x.o) : x.o[i].k = y.o[i].k
               /\ \A i \in 1 .. Len(x.o) : \E j \in 1 .. Len(y.o) : x.o[i].k = y.o[j].k /\ Loose(x.o[i].v, y.o[j].v)
               /\ \A j \in 1 .. Len(y.o) : \E i \in 1 .. Len(x.o) : x.o[i].k = y.o[j].k /\ Loose(x.o[i].v, y.o[j].v)

Same(x, y) == x = y \/ (HasDup(y) /\ Loose(x, y))

-----------------------------------------------------------------------------
(* Steps.  Every action is Step(name, requirement) with the state change.  *)

Call(name) == l <= Len(Events) /\ e.op = name
Advance == l' = l + 1 /\ c' = c
Allowed(cond) == IF cond THEN TRUE ELSE PrintT(<<"REJECT", c, l>>) /\ FALSE

(* The properties at stake in what a path selects. *)
Uses(steps, kinds) == \E i \in DOMAIN steps : steps[i].s \in kinds
SelTags(steps) == (IF Uses(steps, {"key", "any", "desc"}) THEN {"P15"} ELSE {})
                  \cup (IF Uses(steps, {"sub", "all"}) THEN {"P16"} ELSE {})
                  \cup (IF HasMethod(steps) THEN {"P19"} ELSE {})

(* Further calls on a large document.  Each names the property it is asked for. *)
AlsoTags(a) ==
    CASE a.op = "fmt" -> {"P03"} [] a.op = "eq" -> {"P13"} [] a.op = "rt" -> {"P04"} [] a.op = "ext" -> {"P22"} [] a.op = "root" -> {"P23"}
      [] a.op = "exists" -> {"P17"} \cup SelTags(ParsePath(a.path).steps)
      [] a.op = "query" -> {"P18", "P20"} \cup SelTags(ParsePath(a.path).steps)

(* A call with a large document stands for a whole session. *)
BigTags == (IF e.how \in {"scalar", "try"} THEN {"P23"} ELSE {}) \cup (IF e.how = "build" THEN {"P05", "P07", "P10"} ELSE IF e.how \in {"json", "val"} THEN {"P01", "P05"} ELSE {"P05"})
           \cup (IF e.via = "to" THEN {"P09"} ELSE {})

(* What is at stake when a call does not return at all. *)
CallTags(op) ==
    CASE op = "parse"  -> {"P01", "P02", "P05", "P08", "P09", "P21"}
      [] op = "scalar" -> {"P05", "P09", "P21", "P23"}
      [] op \in {"b_root", "b_push", "b_open", "b_fin", "b_drop"} -> {"P05", "P06", "P07", "P08", "P09", "P10", "P21", "P22"}
      [] op = "walk"   -> {"P01", "P06", "P07", "P08", "P11", "P12", "P21", "P22", "P23"}
      [] op = "root"   -> {"P23", "P22"}
      [] op = "types"  -> {"P23"}
      [] op = "arr"    -> {"P11"}
      [] op = "obj"    -> {"P06", "P12"}
      [] op = "fmt"    -> {"P03"}
      [] op = "eq"     -> {"P13"}
      [] op = "rt"     -> {"P04"}
      [] op = "ext"    -> {"P22"}
      [] op = "path"   -> {"P14"}
      [] op = "exists" -> {"P14", "P15", "P16", "P17", "P19"}
      [] op = "query"  -> {"P14", "P15", "P16", "P17", "P18", "P19", "P20"}
      [] op = "big"    -> {"P21", "P11", "P12"} \cup BigTags \cup UNION {AlsoTags(e.also[i]) : i \in DOMAIN e.also}
      [] op = "fill"   -> {"P21"} \cup BigTags
      [] op = "load"   -> {"P21"} \cup (IF e.how = "build" THEN {"P05", "P07"} ELSE {"P01", "P05"}) \cup (IF e.kind = "obj" THEN {"P06"} ELSE {})
      [] OTHER         -> {}

Die == /\ l <= Len(Events) /\ Died
       /\ Allowed(Req(CallTags(e.op), FALSE))
       /\ Advance /\ UNCHANGED <<docs, bld, seen>>

(* A call that runs out of memory may say so, and then it has changed      *)
(* nothing: neither what builders hold nor the contents of a vector.       *)
RanOut == Has_(r, "fault") /\ ~r.ok /\ ErrKind(r) = "reserve"
Exhausted ==
    /\ l <= Len(Events) /\ ~Died /\ ~Skipped /\ RanOut
    /\ Allowed(Req({"P24"}, Has_(r, "buf") => r.buf = e.pre))
    /\ Advance /\ UNCHANGED <<docs, bld, seen>>

Skip_ == /\ l <= Len(Events) /\ Skipped
         /\ Advance /\ UNCHANGED <<docs, bld, seen>>

Live(name) == Call(name) /\ ~Died /\ ~Skipped /\ ~RanOut

Put(reg, rec) == docs' = (reg :> rec) @@ docs

(* Encoding into a caller's vector is the business of P09 too. *)
Into == IF e.via \in {"own", "val"} THEN {} ELSE {"P09"}

(* A call that may produce a document.  x: the value it must have; faults: *)
(* the kinds of error allowed (it must succeed if there are none);         *)
(* make, lay: properties at stake in its value and in its layout.          *)
Produce(x, faults, src, make, lay, refuse) ==
    LET dec == TLCEval(DecodeDoc(r.bytes))
        into == e.via \notin {"own", "val"}
    IN  IF r.ok
        THEN /\ Allowed(/\ Req(refuse, faults = {})
                        /\ Req(lay, dec.ok)
                        /\ Req({"P05"}, dec.ok => dec.tidy)
                        /\ Req(make, faults = {} /\ dec.ok => Same(dec.v, x))
                        /\ Req({"P09"}, into => r.buf = e.pre \o r.bytes)
                        /\ Req({"P05", "P09", "P10"}, \A q \in DOMAIN docs : docs[q].src = src => docs[q].bytes = r.bytes))
             /\ Put(e.reg, [v |-> IF dec.ok THEN dec.v ELSE IF faults = {} THEN x ELSE Null,
                            bytes |-> r.bytes, src |-> src, good |-> dec.ok])
        ELSE /\ Allowed(/\ Req(refuse \cup make, faults # {})
                        /\ Req(refuse, faults = {} \/ ErrKind(r) \in faults)
                        /\ Req({"P09"}, into => SubSeq(r.buf, 1, Len(e.pre)) = e.pre))
             /\ UNCHANGED docs

Parse ==
    /\ Live("parse")
    /\ LET j == TLCEval(ReadJson(e.text)) IN
       Produce(IF j.k = "ok" THEN j.v ELSE Null, RefusalsOf(j), <<"json", e.text>>,
               {"P01", "P05", "P06", "P08", "P21"} \cup Into, {"P01", "P05", "P06", "P08", "P21"} \cup Into, {"P01", "P02", "P08", "P21"})
    /\ Advance /\ UNCHANGED <<bld, seen>>

ScalarCall ==
    /\ Live("scalar")
    /\ Produce(e.val, {}, <<"scalar", [v |-> e.val, pad |-> e.pad]>>, {"P05", "P23", "P09"}, {"P05", "P23", "P09"}, {"P05", "P23", "P09"})
    /\ Advance /\ UNCHANGED <<bld, seen>>

-----------------------------------------------------------------------------
(* Builders.  (Module Builders has the stack of open builders.)            *)

Top == TopOf(bld)
(* The key of a push.  kx: that many letters more, for keys too long to spell. *)
Extra == IF Has_(e, "kx") THEN e.kx ELSE 0
KeyLen == Len(e.key) + Extra
PushKey == IF Extra = 0 THEN e.key ELSE e.key \o Rep(76, Extra)

BRoot ==
    /\ Live("b_root")
    /\ Allowed(Req({"P07", "P08", "P21"}, r.ok))
    /\ bld' = IF r.ok THEN <<Frame(e.kind, e.n, [via |-> e.via, pre |-> e.pre])>> ELSE <<>>
    /\ Advance /\ UNCHANGED <<docs, seen>>

PushTags(opens, faults) ==
    {"P07", "P10"} \cup (IF opens THEN {"P08"} ELSE {}) \cup (IF Top.kind = "obj" /\ KeyLen > 60000 THEN {"P21"} ELSE {})

PushAllowed(opens) ==
    LET faults == PushFaults(bld, KeyLen, opens) IN
    Req(PushTags(opens, faults), IF r.ok THEN faults = {} ELSE ErrKind(r) \in faults)

BPush ==
    /\ Live("b_push") /\ bld # <<>>
    /\ Allowed(PushAllowed(FALSE))
    /\ bld' = IF r.ok THEN Pushed1(bld, [k |-> PushKey, v |-> e.val, s |-> [v |-> e.val, pad |-> e.pad]]) ELSE bld
    /\ Advance /\ UNCHANGED <<docs, seen>>

BOpen ==
    /\ Live("b_open") /\ bld # <<>>
    /\ Allowed(PushAllowed(TRUE))
    /\ bld' = IF r.ok THEN Append(bld, Frame(e.kind, e.n, [key |-> PushKey])) ELSE bld
    /\ Advance /\ UNCHANGED <<docs, seen>>

BFinNested ==
    /\ Live("b_fin") /\ Len(bld) > 1
    /\ LET x == TLCEval(ValueOf(Top))
           dec == TLCEval(DecodeDoc(r.bytes))
       IN  IF r.ok
           THEN /\ Allowed(/\ Req({"P07", "P10"}, FinFaults(bld) = {})
                           /\ Req({"P05", "P06", "P07", "P10", "P22"}, FinFaults(bld) = {} => dec.ok /\ Same(dec.v, x)))
                /\ bld' = Closed(bld)
           ELSE /\ Allowed(Req({"P07", "P10"}, /\ ErrKind(r) \in FinFaults(bld)
                                              /\ ErrKind(r) = "count" => r.err.x = Top.n /\ r.err.y = Len(Top.items)))
                /\ bld' = Abandoned(bld)
    /\ Advance /\ UNCHANGED <<docs, seen>>

BFinRoot ==
    /\ Live("b_fin") /\ Len(bld) = 1
    /\ LET f == Top
           x == TLCEval(ValueOf(f))
           src == <<"build", SourceOf(f)>>
           dec == TLCEval(DecodeDoc(r.bytes))
           into == f.root.via # "own"
       IN  IF r.ok
           THEN /\ Allowed(/\ Req({"P07", "P10"}, FinFaults(bld) = {})
                           /\ Req({"P05", "P07", "P08", "P10", "P21"} \cup (IF f.kind = "obj" THEN {"P06"} ELSE {}) \cup (IF into THEN {"P09"} ELSE {}), FinFaults(bld) = {} => dec.ok)
                           /\ Req({"P05", "P06", "P07", "P08", "P10", "P21"} \cup (IF into THEN {"P09"} ELSE {}), FinFaults(bld) = {} /\ dec.ok => Same(dec.v, x))
                           /\ Req({"P05"}, dec.ok => dec.tidy)
                           /\ Req({"P09"}, into => r.buf = f.root.pre \o r.bytes)
                           /\ Req({"P05", "P09", "P10"}, \A q \in DOMAIN docs : docs[q].src = src => docs[q].bytes = r.bytes))
                /\ Put(e.reg, [v |-> IF dec.ok THEN dec.v ELSE x, bytes |-> r.bytes, src |-> src, good |-> dec.ok])
           ELSE /\ Allowed(/\ Req({"P07", "P10"}, /\ ErrKind(r) \in FinFaults(bld)
                                                 /\ ErrKind(r) = "count" => r.err.x = f.n /\ r.err.y = Len(f.items))
                           /\ Req({"P08"}, FinFaults(bld) # {})
                           /\ Req({"P09"}, into => SubSeq(r.buf, 1, Len(f.root.pre)) = f.root.pre))
                /\ UNCHANGED docs
    /\ bld' = <<>>
    /\ Advance /\ UNCHANGED seen

BDrop ==
    /\ Live("b_drop") /\ bld # <<>>
    /\ bld' = Abandoned(bld)
    /\ Advance /\ UNCHANGED <<docs, seen>>

-----------------------------------------------------------------------------
(* Reading.                                                                *)

Reads(name) == Live(name) /\ Advance /\ UNCHANGED <<docs, bld, seen>>
Doc(reg, pos) == At(docs[reg].v, pos)

(* The value a result holds; a deep one is written in preorder. *)
Held(x) == IF Has_(x, "deep") THEN Unflat(x.deep) ELSE x.v
(* What is missing is reported; everything else is as in the whole document. *)
Gone(x) == Cut /\ ~x.ok /\ ErrKind(x) = "bounds"
OkV(x, val) == Gone(x) \/ (x.ok /\ Held(x) = val)
TypeErr(x, want, have) == Gone(x) \/ (~x.ok /\ ErrKind(x) = "type" /\ x.err.x = want /\ x.err.y = have)
(* All n items come, or an iteration ends with the report of one that is missing. *)
Number(xs, n) == Len(xs) = n \/ (Cut /\ 0 < Len(xs) /\ Len(xs) < n /\ Gone(xs[Len(xs)]))
(* The accessor for type `want` applied to the value y, giving val if it fits. *)
Typed(x, want, y, val) == IF y.t = want THEN OkV(x, val) ELSE TypeErr(x, want, y.t)

Payload(y) == CASE y.t = "str" -> y.s [] y.t = "bool" -> y.b [] OTHER -> y

WalkCall ==
    /\ Reads("walk")
    /\ Allowed(Req({"P01", "P06", "P07", "P08", "P11", "P12", "P21", "P22", "P23"},
                   Gone(r) \/ (r.ok /\ Same(Held(r), Doc(e.reg, e.pos)))))

RootCall ==
    /\ Reads("root")
    /\ LET y == Doc(e.reg, e.pos) IN
       Allowed(Req({"P23", "P22"}, Gone(r) \/
          /\ OkV(r.ty, y.t) /\ OkV(r.vty, y.t)
          /\ OkV(r.isnull, y.t = "null")
          /\ Typed(r.obj, "obj", y, Len(Children(y)))
          /\ Typed(r.arr, "arr", y, Len(Children(y)))
          /\ Typed(r.str, "str", y, Payload(y))
          /\ Typed(r.num, "num", y, y)
          /\ Typed(r.bool, "bool", y, Payload(y))
          /\ Gone(r.val) \/ (r.val.ok /\ Same(Held(r.val), y))))

(* The codes of types and their names. *)
TypesCall ==
    /\ Reads("types")
    /\ Allowed(Req({"P23"},
          /\ r.ok /\ Len(r.items) = Len(e.codes)
          /\ \A i \in DOMAIN r.items :
               LET q == r.items[i]
                   t == TypeCoded(e.codes[i])
               IN  IF t = "none" THEN ~q.ok
                   ELSE q.ok /\ q.ty = t /\ q.back = e.codes[i] /\ q.name = TypeName([t |-> t]) /\ q.title = TypeTitle([t |-> t])))

(* One index of an array. *)
ElementOk(q, xs) ==
    IF q.i < 0 \/ q.i >= Len(xs)
    THEN LET out(x) == Gone(x) \/ (~x.ok /\ ErrKind(x) = "bounds" /\ x.err.x = Len(xs) /\ x.err.y = q.i) IN
         /\ out(q.get) /\ out(q.ty) /\ out(q.isnull) /\ out(q.obj) /\ out(q.arr)
         /\ out(q.str) /\ out(q.num) /\ out(q.bool)
         /\ \A j \in 1..6 : out(q.isty[j])
    ELSE LET y == xs[q.i + 1] IN
         /\ OkV(q.get, y) /\ OkV(q.un, y) /\ OkV(q.ty, y.t) /\ OkV(q.isnull, y.t = "null")
         /\ \A j \in 1..6 : OkV(q.isty[j], y.t = AllTypes[j])
         /\ Typed(q.obj, "obj", y, y) /\ Typed(q.arr, "arr", y, y) /\ Typed(q.str, "str", y, Payload(y))
         /\ Typed(q.num, "num", y, y) /\ Typed(q.bool, "bool", y, Payload(y))

ArrCall ==
    /\ Reads("arr")
    /\ LET y == Doc(e.reg, e.pos) IN
       Allowed(Req({"P11"}, Gone(r) \/
          IF y.t # "arr" THEN ~r.ok /\ TypeErr(r, "arr", y.t)
          ELSE /\ r.ok /\ r.len = Len(y.a) /\ OkV(r.empty, y.a = <<>>)
               /\ Len(r.items) = Len(e.idx)
               /\ \A j \in 1 .. Len(r.items) : r.items[j].i = e.idx[j] /\ ElementOk(r.items[j], y.a)
               /\ Number(r.iter, Len(y.a)) /\ \A j \in 1 .. Len(r.iter) : OkV(r.iter[j], y.a[j])
               /\ r.spent))

(* Optional results of member lookups. *)
Absent(x) == Gone(x) \/ (x.ok /\ x.none)
Found(x, val) == Gone(x) \/ (x.ok /\ ~x.none /\ Held(x) = val)
TypedMember(x, want, y, val) == IF y.t = want THEN Found(x, val) ELSE TypeErr(x, want, y.t)

MemberOk(q, key, x) ==
    LET hits == {i \in 1 .. Len(x.o) : x.o[i].k = key} IN
    IF hits = {}
    THEN /\ Absent(q.get) /\ OkV(q.has, FALSE) /\ Absent(q.ty) /\ Absent(q.isnull)
         /\ Absent(q.obj) /\ Absent(q.arr) /\ Absent(q.str) /\ Absent(q.num) /\ Absent(q.bool)
         /\ \A j \in 1..6 : Absent(q.isty[j])
    ELSE \E i \in hits : LET y == x.o[i].v IN
         /\ Found(q.get, y) /\ OkV(q.has, TRUE) /\ Found(q.ty, y.t) /\ Found(q.isnull, y.t = "null")
         /\ \A j \in 1..6 : Found(q.isty[j], y.t = AllTypes[j])
         /\ TypedMember(q.obj, "obj", y, y) /\ TypedMember(q.arr, "arr", y, y) /\ TypedMember(q.str, "str", y, Payload(y))
         /\ TypedMember(q.num, "num", y, y) /\ TypedMember(q.bool, "bool", y, Payload(y))

ObjCall ==
    /\ Reads("obj")
    /\ LET y == Doc(e.reg, e.pos) IN
       Allowed(Req({"P06", "P12"}, Gone(r) \/
          IF y.t # "obj" THEN ~r.ok /\ TypeErr(r, "obj", y.t)
          ELSE LET n == Len(y.o) IN
               /\ r.ok /\ r.len = n /\ OkV(r.empty, n = 0)
               /\ Len(r.items) = Len(e.keys)
               /\ \A j \in 1 .. Len(r.items) : MemberOk(r.items[j], e.keys[j], y)
               /\ Number(r.ents, n) /\ \A j \in 1 .. Len(r.ents) : Gone(r.ents[j]) \/ (r.ents[j].ok /\ r.ents[j].k = y.o[j].k /\ Held(r.ents[j]) = y.o[j].v)
               /\ Number(r.ks, n)   /\ \A j \in 1 .. Len(r.ks) : OkV(r.ks[j], y.o[j].k)
               /\ Number(r.vs, n)   /\ \A j \in 1 .. Len(r.vs) : OkV(r.vs[j], y.o[j].v)
               /\ r.spent))

(* The same text into writers without room for all of it. *)
Tight(text) == \A i \in DOMAIN r.rooms : Written(text, r.rooms[i].room, r.rooms[i].ok, r.rooms[i].got)

FmtCall ==
    /\ Reads("fmt")
    /\ Allowed(Req({"P03"}, (Cut /\ ~r.ok) \/ (r.ok /\ TextOf(r.text, Doc(e.reg, e.pos), e.pretty) /\ Tight(r.text))))

EqCall ==
    /\ Reads("eq")
    /\ Allowed(Req({"P13"}, LET same == Doc(e.a, e.apos) = Doc(e.b, e.bpos) IN
                            OkV(r.ab, same) /\ OkV(r.ba, same) /\ (Has_(e, "fn") \/ (r.op = same /\ r.bufs = same))))

(* The text inside a serialized string. *)
Quoted(payload, y) == LET j == ReadJson(payload) IN j.k = "ok" /\ j.v.t = "str" /\ TextOf(j.v.s, y, FALSE)

RtCall ==
    /\ Live("rt")
    /\ LET d == docs[e.reg]
           dec == TLCEval(DecodeDoc(r.bytes))
       IN  IF r.ok
           THEN /\ Allowed(Req({"P04"},
                     /\ dec.ok /\ dec.v = d.v
                     /\ OkV(r.eq, TRUE) /\ OkV(r.qe, TRUE) /\ r.op
                     /\ e.via = "bincode" => r.bytes = d.bytes /\ r.payload = LE32(Len(d.bytes)) \o <<0, 0, 0, 0>> \o d.bytes
                     /\ e.via \in {"json", "tree"} => Quoted(r.payload, d.v)
                     /\ e.via \in {"compact", "pretty"} => ReadJson(r.payload) = [k |-> "ok", v |-> d.v, depth |-> NestDepth(d.v), next |-> Len(r.payload) + 1]))
                /\ Put(e.reg2, [v |-> IF dec.ok THEN dec.v ELSE d.v, bytes |-> r.bytes, src |-> <<"other", e.reg2>>, good |-> dec.ok])
           ELSE Allowed(Req({"P04"}, FALSE)) /\ UNCHANGED docs
    /\ Advance /\ UNCHANGED <<bld, seen>>

(* The document in a register, cut short. *)
CutCall ==
    /\ Live("cut")
    /\ LET d == docs[e.reg] IN
       /\ Allowed(Req({"P25"}, r.bytes = SubSeq(d.bytes, 1, Len(r.bytes))))
       /\ Put(e.reg2, [v |-> d.v, bytes |-> r.bytes, src |-> <<"other", e.reg2>>, good |-> FALSE, cut |-> TRUE])
    /\ Advance /\ UNCHANGED <<bld, seen>>

ExtCall ==
    /\ Live("ext")
    /\ LET y == Doc(e.reg, e.pos)
           dec == TLCEval(DecodeDoc(r.bytes))
       IN  IF r.ok
           THEN /\ Allowed(Req({"P22"},
                     /\ dec.ok /\ dec.v = y /\ r.same
                     /\ e.pos = <<>> => r.bytes = docs[e.reg].bytes
                     /\ e.via = "try" /\ ~IsContainer(y) => r.buf = e.pre \o r.bytes
                     /\ SubSeq(r.buf, 1, Len(e.pre)) = e.pre))
                /\ Put(e.reg2, [v |-> IF dec.ok THEN dec.v ELSE y, bytes |-> r.bytes, src |-> <<"other", e.reg2>>, good |-> dec.ok])
           ELSE Allowed(Req({"P22"}, FALSE)) /\ UNCHANGED docs
    /\ Advance /\ UNCHANGED <<bld, seen>>

-----------------------------------------------------------------------------
(* Paths and queries.                                                      *)

PathAllowed(text) == LET p == ParsePath(text) IN
                     IF p.ok THEN r.ok ELSE ~r.ok /\ ErrKind(r) = "path" /\ r.err.msg = ErrorText(p)

PathCall ==
    /\ Reads("path")
    /\ Allowed(Req({"P14"}, PathAllowed(e.text)))

QInit == Reads("qinit")

(* The list of values a result carries, whatever its form. *)
Carried == IF r.form = "yason"
           THEN LET d == DecodeDoc(r.bytes) IN IF d.ok /\ d.v.t = "arr" THEN d.v.a ELSE << [t |-> "malformed"] >>
           ELSE Held(r).a

(* Characters and numbers are spelled in a result as in a document of the  *)
(* value alone, whatever the form and the style.                           *)
SpelledAlike ==
    /\ r.ctext = IF r.form = "value" THEN r.each[1] ELSE <<91>> \o Concat([i \in DOMAIN r.each |-> IF i = 1 THEN r.each[i] ELSE <<44>> \o r.each[i]]) \o <<93>>
    /\ LexemesOf(r.ptext) = LexemesOf(r.ctext)

FormatsAllowed(vals) ==
    /\ r.fc /\ r.fp
    /\ IF r.form = "none" THEN r.ctext = <<>> /\ r.ptext = <<>>
       ELSE LET y == IF r.form = "value" THEN vals[1] ELSE Arr(vals) IN
            /\ TextOf(r.ctext, y, FALSE) /\ TextOf(r.ptext, y, TRUE)
            /\ Len(r.each) = Len(vals) /\ SpelledAlike
    /\ Tight(IF Has_(e, "pretty") /\ e.pretty THEN r.ptext ELSE r.ctext)

QueryAllowed(p, sel, vals) ==
    LET many == HasMethod(p.steps) \/ Len(sel) > 1
        st == SelTags(p.steps)
    IN  IF Gone(r) \/ (Cut /\ r.ok /\ \E i \in 1 .. Len(sel) : sel[i] = Doc(e.reg, e.pos)) THEN TRUE
        ELSE IF ~e.wrap /\ many
        THEN Req({"P18"} \cup st, ~r.ok /\ ErrKind(r) = "multi")
        ELSE /\ Req({"P18", "P20"} \cup st, r.ok)
             /\ r.ok =>
                  /\ Req({"P18", "P20"} \cup st, vals = sel)
                  /\ Req({"P18"} \cup (IF HasMethod(p.steps) THEN {"P19"} ELSE {}),
                         r.form = IF sel = <<>> THEN "none" ELSE IF ~e.wrap THEN "value"
                                  ELSE IF e.rb THEN "yason" ELSE IF e.qb THEN "ref" ELSE "values")
                  /\ Req({"P18", "P20"}, r.form = "yason" => DecodeDoc(r.bytes).ok /\ r.rbuf = r.bytes)
                  /\ Req({"P20"}, FormatsAllowed(vals))

QueryCall ==
    /\ Live("query")
    /\ LET p == TLCEval(ParsePath(e.path)) IN
       IF ~p.ok \/ ErrKind(r) = "path"
       THEN Allowed(Req({"P14", "P15", "P16", "P18", "P19", "P20"}, ~p.ok /\ ErrKind(r) = "path")) /\ UNCHANGED seen
       ELSE LET sel  == TLCEval(Select(Doc(e.reg, e.pos), p.steps))
                vals == TLCEval(IF r.ok THEN Carried ELSE <<>>)
            IN  /\ Allowed(QueryAllowed(p, sel, vals))
                /\ seen' = IF r.ok /\ e.wrap /\ ~Cut /\ ~HasMethod(p.steps)
                           THEN seen \cup {[doc |-> docs[e.reg].bytes, pos |-> e.pos, path |-> e.path, some |-> vals # <<>>]} ELSE seen
    /\ Advance /\ UNCHANGED <<docs, bld>>

ExistsCall ==
    /\ Reads("exists")
    /\ LET p == TLCEval(ParsePath(e.path))
           before == {q \in seen : q.doc = docs[e.reg].bytes /\ q.pos = e.pos /\ q.path = e.path}
       IN  IF ~p.ok \/ ErrKind(r) = "path"
           THEN Allowed(Req({"P14", "P15", "P16", "P17"}, ~p.ok /\ ErrKind(r) = "path"))
           ELSE IF HasMethod(p.steps) THEN Allowed(Req({"P17", "P19"}, ~r.ok /\ ErrKind(r) = "badpath"))
           ELSE Allowed(/\ Req({"P17"}, Gone(r) \/ (r.ok /\ \A q \in before : r.v = q.some))
                        /\ Req(SelTags(p.steps), OkV(r, Exists(Doc(e.reg, e.pos), p.steps))))

-----------------------------------------------------------------------------
(* Large documents.                                                        *)

QueriedRope(q, x) ==
    LET vals == TLCEval(IF x.t = "arr" THEN RRead(x).a ELSE [i \in 1 .. Len(x.o) |-> RRead(x).o[i].v])
        \* The elements of a result are encoded with the bytes they have in the document.
        kids == IF x.t = "arr" THEN x.a ELSE [i \in 1 .. Len(x.o) |-> RSorted(x.o)[i].v]
        both == [t |-> "arr", a |-> kids]
    IN  IF kids = <<>> THEN q.ok /\ q.form = "none"
        ELSE /\ q.ok /\ q.form = (IF e.rb THEN "yason" ELSE "values")
             /\ q.back = [t |-> "arr", a |-> vals]
             /\ e.rb => q.doc = REncode(both)
             /\ HasNum(x) \/ q.text = RText(both)

(* The answers to the further calls on a large document. *)
RSteps(steps) == TLCEval([i \in 1 .. Len(steps) |-> IF steps[i].s \in {"key", "desc"} THEN [steps[i] EXCEPT !.k = RLit(@)] ELSE steps[i]])
AlsoOk(a, q, x) ==
    CASE a.op = "fmt" -> HasNum(x) \/ q.text = (IF a.pretty THEN RPretty(x, 0) ELSE RText(x))
      [] a.op = "eq"  -> LET same == RRead(x) = RRead(a.val) IN OkV(q.ab, same) /\ OkV(q.ba, same) /\ q.op = same
      [] a.op = "rt"  -> q.ok /\ q.back = RRead(x) /\ OkV(q.eq, TRUE) /\ (a.via = "bincode" => q.doc = REncode(x))
      [] a.op = "ext" -> LET y == RAt(x, a.pos) IN q.ok /\ q.back = RRead(y) /\ q.doc = REncode(y)
      [] a.op = "root" -> LET y == RAt(x, a.pos) IN
                          /\ OkV(q.ty, y.t) /\ OkV(q.isnull, y.t = "null")
                          /\ IF y.t = "str" THEN OkV(q.str, y.r) ELSE TypeErr(q.str, "str", y.t)
                          /\ Typed(q.arr, "arr", y, IF y.t = "arr" THEN Len(y.a) ELSE 0) /\ Typed(q.obj, "obj", y, IF y.t = "obj" THEN Len(y.o) ELSE 0)
      [] a.op = "exists" -> OkV(q, SelectSteps(RRead(x), RSteps(ParsePath(a.path).steps)) # <<>>)
      [] a.op = "query" ->
            LET steps == TLCEval(ParsePath(a.path).steps)
                vals == TLCEval(Select(RRead(x), RSteps(steps)))
                \* the names of types are spelled out; every other string is runs already
                sel == TLCEval([i \in 1 .. Len(vals) |-> IF vals[i].t = "str" /\ Has_(vals[i], "s") THEN [t |-> "str", r |-> RLit(vals[i].s)] ELSE vals[i]])
            IN  IF ~a.wrap /\ (HasMethod(steps) \/ Len(sel) > 1) THEN ~q.ok /\ ErrKind(q) = "multi"
                ELSE /\ q.ok /\ q.back = sel
                     /\ q.form = (IF sel = <<>> THEN "none" ELSE IF ~a.wrap THEN "value" ELSE IF a.rb THEN "yason" ELSE "values")

BigCall ==
    /\ Reads("big")
    /\ LET build == e.how = "build"
           d == TLCEval(IF build THEN Drive(e.val)
                        ELSE [outs |-> <<>>, good |-> ~RTooLong(e.val), v |-> e.val])
           x == d.v
           enc == TLCEval(IF d.good THEN REncode(x) ELSE <<>>)
           make == {"P21"} \cup (BigTags \ {"P05"})
       IN  Allowed(
             /\ Req({"P21", "P07", "P10"}, build => /\ Len(r.outs) = Len(d.outs)
                                                  /\ \A i \in 1 .. Len(r.outs) : r.outs[i] \in d.outs[i])
             /\ Req(make, r.ok = d.good)
             /\ Req({"P21"}, ~r.ok => build \/ ErrKind(r) = "long")
             /\ Req({"P09"}, e.via = "to" => r.head = e.pre)
             /\ r.ok /\ d.good =>
                  /\ Req({"P21"} \cup BigTags, r.doc = enc)
                  /\ Req({"P09", "P21"}, e.via = "to" => r.buf = RCat(<< RLit(e.pre), enc >>))
                  /\ Req(make, r.back = RRead(x))
                  /\ Req({"P11", "P12", "P23"}, r.doc = enc => r.back = RRead(x))
                  /\ \A i \in DOMAIN e.also : Req({"P21"} \cup AlsoTags(e.also[i]), r.doc = enc => AlsoOk(e.also[i], r.also[i], x))
                  /\ Req({"P21", "P03"}, HasNum(x) \/ r.text = RText(x))
                  /\ Req({"P21", "P18", "P20"}, IsContainer(x) => QueriedRope(r.q, x)))

(* Results of queries over a container of copies: n values, all the leaf. *)
Copies(leaf, n) == IF n = 0 THEN <<>> ELSE << <<leaf, n>> >>
ArrOf(n, leaf) == ArrFill([kind |-> "arr", n |-> n, m |-> n, order |-> "asc", leaf |-> leaf, marks |-> {}])
QueriedFill(ask, q, m) ==
    LET n == CASE ask.sel = "all" -> m [] ask.sel = "dup" -> IF m = 0 THEN 0 ELSE m + 1 [] ask.sel = "count" -> 1
        val == IF ask.sel = "count" THEN NatNum(ask.times * m) ELSE e.leaf
    IN  IF n = 0 THEN q.ok /\ q.form = "none"
        ELSE IF ask.rb /\ n > MaxElements THEN ~q.ok /\ ErrKind(q) = "many"
        ELSE /\ q.ok /\ q.form = (IF ask.rb THEN "yason" ELSE "values")
             /\ q.vals = Copies(val, n)
             (* How a number is spelled is free; that of the leaf is the encoder's own. *)
             /\ ask.rb => (IF ask.sel = "count" THEN Denotes(q.doc, Arr(<<val>>)) ELSE q.doc = ArrOf(n, val)) /\ q.same

FillText(f) ==
    LET kind == f.kind
        m == f.m
        leaf == f.leaf
        lt == RFlat(RText(IF leaf.t = "str" THEN [t |-> "str", r |-> RLit(leaf.s)] ELSE leaf))
        w == Len(lt) + (IF kind = "arr" THEN 1 ELSE 8)
        byte(j) == LET k == j \div w  q == j % w IN
                   IF kind = "arr" THEN IF q < Len(lt) THEN lt[q + 1] ELSE 44
                   ELSE IF q = 0 \/ q = 5 THEN 34
                   ELSE IF q < 5 THEN FillKey(Least(f) + k)[q]
                   ELSE IF q = 6 THEN 58 ELSE IF q < w - 1 THEN lt[q - 6] ELSE 44
        open == IF kind = "arr" THEN <<91>> ELSE <<123>>
        close == IF kind = "arr" THEN <<93>> ELSE <<125>>
    IN  IF m = 0 THEN open \o close ELSE open \o TLCEval([i \in 1 .. (m * w - 1) |-> byte(i - 1)]) \o close

FillCall ==
    /\ Reads("fill")
    /\ LET build == e.how = "build"
           m == IF build THEN Min2(e.n, e.d) ELSE e.n
           fits == m <= MaxElements
           good == IF build THEN m = e.d ELSE fits
           outs == (IF m > 0 THEN << <<"ok", m>> >> ELSE <<>>) \o (IF e.n > m THEN << <<"count", e.n - m>> >> ELSE <<>>)
           \* nothing of what was pushed is lost or repeated
           leaf == e.leaf
           f == [kind |-> e.kind, n |-> e.n, m |-> m, order |-> e.order, leaf |-> leaf, marks |-> {}]
           body == TLCEval(IF good THEN Nested(e.nest, Fill(f)) ELSE <<>>)
           make == {"P21"} \cup (BigTags \ {"P05"})
           least == Least(f)
       IN  Allowed(
             /\ Req({"P21", "P07", "P10"}, build => r.outs = outs)
             /\ Req(make, r.ok = good)
             /\ Req({"P21", "P07"}, ~r.ok /\ ~good => ErrKind(r) = (IF build THEN IF e.nest = "none" THEN "count" ELSE "inner" ELSE "many"))
             /\ Req({"P09"}, e.via = "to" => r.head = e.pre)
             /\ r.ok /\ good =>
                  /\ Req({"P21"} \cup BigTags, r.doc = body)
                  /\ Req({"P09", "P21"}, e.via = "to" => r.tail)
                  /\ Req({"P21", "P11", "P12"}, r.len = m /\ r.vals = Copies(leaf, m))
                  /\ Req({"P21", "P12", "P06"}, e.kind = "obj" => r.keys = TLCEval([i \in 1 .. (4 * m) |-> FillKey(least + ((i - 1) \div 4))[1 + ((i - 1) % 4)]]))
                  /\ Req({"P21", "P11"}, e.kind = "arr" => \A j \in 1 .. Len(e.idx) :
                          LET g == r.gets[j] IN IF e.idx[j] < m THEN OkV(g, leaf) ELSE ~g.ok /\ ErrKind(g) = "bounds" /\ g.err.x = m /\ g.err.y = e.idx[j])
                  /\ Req({"P21", "P12", "P06"}, e.kind = "obj" => \A j \in 1 .. Len(e.idx) :
                          LET g == r.gets[j] IN IF e.idx[j] \in least .. (least + m - 1) THEN Found(g, leaf) ELSE Absent(g))
                  /\ Req({"P21", "P03"}, e.nest = "none" /\ leaf.t # "num" => r.text = FillText(f))
                  /\ Req({"P21", "P18", "P19", "P20"}, \A j \in 1 .. Len(e.qs) : QueriedFill(e.qs[j], r.q[j], m)))

(* A wide document put into a register, for the calls above to read. *)
LoadCall ==
    /\ Live("load")
    /\ LET f == [kind |-> e.kind, n |-> e.n, m |-> e.n, order |-> e.order, leaf |-> e.leaf, marks |-> {e.marks[i] : i \in DOMAIN e.marks}]
           body == TLCEval(Nested(e.nest, Fill(f)))
           x == TLCEval(NestedValue(e.nest, FillValue(f)))
           dec == TLCEval(DecodeDoc(r.bytes))
       IN  IF r.ok
           THEN /\ Allowed(Req(CallTags("load"), r.bytes = body))
                /\ Put(e.reg, IF r.bytes = body THEN [v |-> x, bytes |-> body, src |-> <<"other", e.reg>>, good |-> TRUE]
                              ELSE [v |-> IF dec.ok THEN dec.v ELSE x, bytes |-> r.bytes, src |-> <<"other", e.reg>>, good |-> dec.ok])
           ELSE Allowed(Req(CallTags("load"), FALSE)) /\ UNCHANGED docs
    /\ Advance /\ UNCHANGED <<bld, seen>>

-----------------------------------------------------------------------------
Init == /\ c \in 1 .. Len(Cases) /\ l = 1
        /\ docs = <<>> /\ bld = <<>> /\ seen = {}

Next == \/ Die \/ Skip_ \/ Exhausted
        \/ Parse \/ ScalarCall
        \/ BRoot \/ BPush \/ BOpen \/ BFinNested \/ BFinRoot \/ BDrop
        \/ WalkCall \/ RootCall \/ TypesCall \/ ArrCall \/ ObjCall \/ FmtCall \/ EqCall
        \/ RtCall \/ ExtCall \/ CutCall \/ PathCall \/ QInit \/ QueryCall \/ ExistsCall
        \/ BigCall \/ FillCall \/ LoadCall

Spec == Init /\ [][Next]_vars
=============================================================================

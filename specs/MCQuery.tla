------------------------------- MODULE MCQuery ------------------------------
(***************************************************************************)
(* Documents and paths: the two readings of a path agree, step after step. *)
(***************************************************************************)
EXTENDS PathQuery, Grow, Emit
CONSTANTS MaxNodes, MaxSteps
VARIABLES v, steps

QLeaves == {Num(FALSE, <<1>>, 0), Arr(<<>>), Obj(<<>>)}
KA == <<97>>
KB == <<98>>
QKeys == {KA, KB}
Steps == {KeyStep(KA), KeyStep(KB), AnyStep, DescStep(KA), AllStep, SubStep(<<One(Idx(0))>>), SubStep(<<One(Idx(1))>>), SubStep(<<One(FromEnd(0))>>),
          SubStep(<<Span(FromEnd(0), Idx(0))>>), SubStep(<<One(FromEnd(0)), One(Idx(0))>>), FnStep("count"), FnStep("size"), FnStep("type")}

Init == v \in QLeaves /\ steps = <<>>
Next == \/ steps = <<>> /\ Nodes(v) < MaxNodes /\ v' \in Grown(v) /\ UNCHANGED steps
        \/ Len(steps) < MaxSteps /\ ~HasMethod(steps) /\ \E st \in Steps : steps' = Append(steps, st) /\ UNCHANGED v

Vals == Select(v, steps)
RECURSIVE Within(_, _)
Within(y, x) == y = x \/ \E i \in 1 .. Len(Children(x)) : Within(y, Children(x)[i])

(* The declarative meaning is the evaluator's. *)
Readings == SelectSteps(v, Plain(steps)) = Walk(v, Plain(steps))
ExistsIff == ~HasMethod(steps) => (Exists(v, steps) <=> Vals # <<>>)
(* A path selects values of the document. *)
Selected == ~HasMethod(steps) => \A i \in DOMAIN Vals : Within(Vals[i], v)
Methods == HasMethod(steps) =>
              LET plain == SelectSteps(v, Plain(steps)) f == steps[Len(steps)].f IN
              /\ f = "count" => Vals = <<NatNum(Len(plain))>>
              /\ f # "count" => Len(Vals) = Len(plain)
(* A path is the concatenation of its steps: splitting it anywhere does not matter. *)
Splits == ~HasMethod(steps) => \A i \in 0 .. Len(steps) :
              Vals = FlatMap(SelectSteps(v, SubSeq(steps, 1, i)), LAMBDA y : SelectSteps(y, SubSeq(steps, i + 1, Len(steps))))
(* The text of the path is read as the path. *)
Text == PathText(steps, <<>>, FALSE)
Reads == ParsePath(Text) = [ok |-> TRUE, steps |-> steps]

Emitted == /\ steps = <<>> => Out([v |-> v])
           /\ v = Arr(<<>>) => Out([path |-> Text])
=============================================================================

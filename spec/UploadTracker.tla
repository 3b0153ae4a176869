--------------------------- MODULE UploadTracker ---------------------------
(* C19: the tracker of outstanding uploads and intents (bd-api upload.rs). *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Cfgs, Ids, MaxUps

Class(k) == IF k = "intent" THEN "intent" ELSE "upload"
S0(c) == [out |-> <<>>, ups |-> 0, left |-> {}]
Gone(s, xs) == {[n |-> xs[i].n, r |-> "gone"] : i \in {j \in DOMAIN xs : xs[j].n \notin s.left}}

Outcomes(s, op) ==
  LET Hit(x) == x.k = op.k /\ x.id = op.id
      Rest(x) == ~Hit(x)
      R(t, res, done) == {[s |-> t, res |-> [res |-> res, done |-> done]]} IN
  CASE op.op = "track" ->
         R([s EXCEPT !.ups = @ + 1, !.out = Append(SelectSeq(@, Rest), [n |-> s.ups + 1, k |-> op.k, id |-> op.id])], "ok", Gone(s, SelectSeq(s.out, Hit)))
    [] op.op = "answer" ->
         LET hit == SelectSeq(s.out, Hit) IN
         IF hit = <<>> THEN R(s, "err", {})
         ELSE R([s EXCEPT !.out = SelectSeq(@, Rest)], "ok",
                IF hit[1].n \in s.left THEN {} ELSE {[n |-> hit[1].n, r |-> IF op.r = "none" THEN "drop" ELSE op.r]})
    [] op.op = "leave" -> R([s EXCEPT !.left = @ \cup {op.n}], "ok", {})
    [] op.op = "end" -> R([s EXCEPT !.out = <<>>], "ok", Gone(s, s.out))

Ops(s) ==
  (IF s.ups < MaxUps THEN {[op |-> "track", k |-> k, id |-> i] : k \in {"intent", "upload"}, i \in Ids} ELSE {})
    \cup {[op |-> "answer", k |-> "upload", id |-> i, r |-> r] : i \in Ids, r \in {"ok", "fail"}}
    \cup {[op |-> "answer", k |-> "intent", id |-> i, r |-> r] : i \in Ids, r \in {"yes", "drop"}}
    \cup {[op |-> "leave", n |-> s.out[i].n] : i \in {j \in DOMAIN s.out : s.out[j].n \notin s.left}}
    \cup (IF s.out # <<>> THEN {[op |-> "end"]} ELSE {})

Inv(s) == \A i, j \in DOMAIN s.out : i # j => s.out[i].n # s.out[j].n /\ ~(s.out[i].k = s.out[j].k /\ s.out[i].id = s.out[j].id)
StepOk(s, op, o) ==
  LET Was == {s.out[i].n : i \in DOMAIN s.out}
      Is == {o.s.out[i].n : i \in DOMAIN o.s.out}
      ns == {d.n : d \in o.res.done} IN
  \* whoever is no longer outstanding was told (unless they left); an error disturbs nobody
  /\ ns = (Was \ Is) \ s.left
  /\ Cardinality(ns) = Cardinality(o.res.done)
  /\ o.res.res = "err" => Was = Is
=============================================================================

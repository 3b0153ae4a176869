---------------------------- MODULE WatchedFile ----------------------------
(* C08: a configuration file watched for replacements (bd-runtime-config/src/loader.rs).

   The disk goes through numbered versions; a load happens at its own pace and reads the disk as it was
   at some moment since the previous load; readers see published loads, never going back.  0 is the
   designated fallback.  A shutdown ends all of it. *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Cfgs, Kinds, MaxV

Val(kind, v) == IF kind = "good" THEN v ELSE 0
Acct(kind) == CASE kind = "good" -> {"ok"} [] kind = "bad" -> {"bad"} [] kind = "utf8" -> {"bad", "io"} [] OTHER -> {"io"}

\* hist: the versions of the disk; ld: loads so far, as indices into hist with their values;
\* seen: per reader the index of the load it saw last (0: none)
S0(cfg) == [hist |-> <<[kind |-> cfg.init, v |-> 1]>>, at |-> 0, loads |-> <<>>, seen |-> <<0, 0>>, stopped |-> FALSE]

Load(s) ==
  IF s.stopped THEN {}
  ELSE {[s |-> [s EXCEPT !.at = j, !.loads = Append(@, Val(s.hist[j].kind, s.hist[j].v))],
         res |-> [v |-> Val(s.hist[j].kind, s.hist[j].v), acct |-> a]] :
           <<j, a>> \in {<<x, y>> \in ((IF s.at = 0 THEN 1 ELSE s.at) .. Len(s.hist)) \X {"ok", "bad", "io"} : y \in Acct(s.hist[x].kind)}}

Last(s) == IF s.loads = <<>> THEN 0 ELSE s.loads[Len(s.loads)]
\* The value in force when nothing is going on any more.
Latest(s) == Val(s.hist[Len(s.hist)].kind, s.hist[Len(s.hist)].v)

Outcomes(s, op) ==
  CASE op.op = "load" -> Load(s)
    [] op.op = "put" -> {[s |-> [s EXCEPT !.hist = Append(@, [kind |-> op.kind, v |-> op.v])], res |-> 0]}
    [] op.op \in {"other", "flood"} -> {[s |-> s, res |-> 0]}
    \* a reader sees some published load not older than the one it saw before
    [] op.op = "see" -> {[s |-> [s EXCEPT !.seen[op.r] = k], res |-> [v |-> s.loads[k]]] :
                           k \in {x \in 1 .. Len(s.loads) : x >= s.seen[op.r]}}
    \* quiescent: the latest replacement is in force (unless watching stopped)
    [] op.op = "now" -> {[s |-> s, res |-> [v |-> IF s.stopped THEN Last(s) ELSE Latest(s)]]}
    [] op.op = "final" -> {[s |-> s, res |-> [v |-> Last(s)]]}
    [] op.op = "shutdown" -> {[s |-> [s EXCEPT !.stopped = TRUE], res |-> 0]}

Vs(s) == Len(s.hist) + 1
Ops(s) ==
  {[op |-> "load"]}
  \cup {[op |-> "put", kind |-> k, v |-> Vs(s), sync |-> b] : k \in IF Len(s.hist) < MaxV THEN Kinds ELSE {}, b \in {TRUE, FALSE}}
  \cup {[op |-> "see", r |-> r] : r \in {1, 2}}
  \cup {[op |-> o] : o \in IF s.loads = <<>> THEN {} ELSE {"shutdown", "final"}}

Inv(s) == s.at <= Len(s.hist)
StepOk(s, op, o) ==
  /\ op.op = "load" => o.res.v = 0 \/ \E i \in 1 .. Len(s.hist) : s.hist[i].kind = "good" /\ s.hist[i].v = o.res.v
  /\ s.stopped => o.s.loads = s.loads
  /\ op.op = "see" => o.s.seen[op.r] >= s.seen[op.r]
=============================================================================

---------------------------- MODULE ErrorReports ----------------------------
(* C37: forwarding of unexpected errors (bd-client-common error.rs).  Reporters: 1, 2 plain; 3 itself runs into an unexpected error the
   first time it is called within one report; 4 panics; 5 is the override of racing threads.  ov: overrides of the main thread, innermost last. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Cfgs, Hows, Over, Inst, Races, MaxOv

Budget == 5
S0(c) == [rem |-> Budget, inst |-> c.inst, ov |-> <<>>, ctr |-> 0, drop |-> <<0, 0>>]
Target(s) == IF s.ov = <<>> THEN s.inst ELSE s.ov[Len(s.ov)]
Dropped(s) == IF s.ctr = 0 THEN s ELSE [s EXCEPT !.drop[s.ctr] = @ + 1]
Res(s, r, got, cnt) == [s |-> s, res |-> [r |-> r, got |-> got, cnt |-> cnt, drop |-> s.drop]]

\* one error: <<next state, reporters called>>
Err(s) ==
  IF s.rem = 0 THEN <<Dropped(s), <<>>>>
  ELSE LET t == [s EXCEPT !.rem = @ - 1] r == Target(s) IN
       IF r # 3 THEN <<t, <<r>>>>
       ELSE IF t.rem = 0 THEN <<Dropped(t), <<3>>>> ELSE <<[t EXCEPT !.rem = @ - 1], <<3, 3>>>>

\* what the caller continues with
Back(h) == CASE h \in {"or", "withor"} -> "other" [] h \in {"okor", "okwithor"} -> "value" [] OTHER -> "unit"
Failing(h) == h \in {"plain", "with", "details", "or", "withor"}
Min(a, b) == IF a < b THEN a ELSE b

RECURSIVE DropN(_, _)
DropN(s, n) == IF n = 0 THEN s ELSE DropN(Dropped(s), n - 1)

Outcomes(s, op) ==
  CASE op.op = "err" -> IF ~Failing(op.how) THEN {Res(s, Back(op.how), <<>>, <<>>)}
                        ELSE LET e == Err(s) IN {Res(e[1], IF e[2] # <<>> /\ Head(e[2]) = 4 THEN "panic" ELSE Back(op.how), e[2], <<>>)}
    [] op.op = "set" -> {Res([s EXCEPT !.inst = op.i], "ok", <<>>, <<>>)}
    [] op.op = "disable" -> {Res([s EXCEPT !.rem = 0], "ok", <<>>, <<>>)}
    [] op.op = "register" -> {Res([s EXCEPT !.ctr = op.i], "ok", <<>>, <<>>)}
    [] op.op = "push" -> {Res([s EXCEPT !.ov = Append(@, op.i)], "ok", <<>>, <<>>)}
    \* an override ends with its scope, also when that is left by a panic
    [] op.op = "pop" -> {Res([s EXCEPT !.ov = SubSeq(@, 1, Len(@) - 1)], "ok", <<>>, <<>>)}
    \* op.n threads report op.k errors each; every second one under an override of its own
    [] op.op = "race" ->
         LET tot == op.n * op.k own == (op.n \div 2) * op.k m == Min(s.rem, tot)
             t == DropN([s EXCEPT !.rem = @ - m], tot - m) IN
         {Res(t, "ok", <<>>, <<m - c, c>>) : c \in {x \in 0 .. Min(m, own) : m - x <= tot - own}}

Ops(s) ==
  (IF Target(s) = 0 THEN {} ELSE {[op |-> "err", how |-> h] : h \in Hows})
  \cup {[op |-> "set", i |-> i] : i \in Inst} \cup {[op |-> "disable"]} \cup {[op |-> "register", i |-> i] : i \in {1, 2}}
  \cup (IF Len(s.ov) < MaxOv THEN {[op |-> "push", i |-> i, async |-> a] : i \in Over, a \in BOOLEAN} ELSE {})
  \cup (IF s.ov # <<>> THEN {[op |-> "pop", panic |-> p] : p \in BOOLEAN} ELSE {})
  \cup (IF s.inst \in {1, 2} THEN Races ELSE {})

Inv(s) == s.rem \in 0 .. Budget
StepOk(s, op, o) ==
  LET t == o.s IN
  \* never more than the budget; what is not forwarded is counted
  /\ (op.op = "err" /\ Failing(op.how)) => (o.res.got # <<>>) = (s.rem > 0)
  /\ (op.op = "err" /\ Failing(op.how) /\ s.rem = 0 /\ s.ctr # 0) => t.drop[s.ctr] = s.drop[s.ctr] + 1
  /\ (op.op = "err") => \A i \in DOMAIN o.res.got : o.res.got[i] = Target(s)
  /\ op.op = "err" => t.rem = s.rem - Len(o.res.got)
=============================================================================

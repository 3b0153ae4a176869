----------------------------- MODULE RateLimit -----------------------------
(* C32: the byte budget shared by all log uploaders (bd-logger ratelimit.rs, through the upload service).
   Time in steps of 10 ms; a period configured as p lasts 10p + 5 ms, so that no step ever lands on its end. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Cfgs, Confs, Sizes, Steps, MaxW

S0(c) == [now |-> 1, num |-> c.num, per |-> c.per, end |-> 0, bud |-> 0, rem |-> 0, lim |-> FALSE, wait |-> {}, adm |-> <<>>, n |-> 1]

Expired(s) == s.now > s.end
Open(s) == IF Expired(s) THEN [s EXCEPT !.end = s.now + s.per, !.bud = s.num, !.rem = s.num, !.lim = FALSE, !.adm = <<>>] ELSE s
\* one attempt to get through: <<next state, admitted>>
Try(s, r) ==
  LET o == Open(s) IN
  IF o.lim THEN <<[o EXCEPT !.wait = @ \cup {r}], FALSE>>
  ELSE <<[o EXCEPT !.rem = IF @ > r[2] THEN @ - r[2] ELSE @, !.lim = ~(o.rem > r[2]), !.adm = Append(@, r[2]), !.wait = @ \ {r}], TRUE>>

RECURSIVE Orders(_)
Orders(S) == IF S = {} THEN {<<>>} ELSE UNION {{<<x>> \o p : p \in Orders(S \ {x})} : x \in S}
RECURSIVE Run(_, _, _)
Run(s, q, got) == IF q = <<>> THEN [s |-> s, res |-> [adm |-> got, wait |-> Cardinality(s.wait)]]
                  ELSE LET t == Try(s, Head(q)) IN Run(t[1], Tail(q), IF t[2] THEN Append(got, Head(q)[1]) ELSE got)

Outcomes(s, op) ==
  CASE op.op = "req" -> {Run([s EXCEPT !.n = @ + 1], <<<<s.n, op.size>>>>, <<>>)}
    [] op.op = "adv" -> LET t == [s EXCEPT !.now = @ + op.n] IN
                        IF Expired(t) /\ t.wait # {} THEN {Run([t EXCEPT !.wait = {}], q, <<>>) : q \in Orders(s.wait)} ELSE {Run(t, <<>>, <<>>)}
    [] op.op = "conf" -> {Run([s EXCEPT !.num = Confs[op.i].num, !.per = Confs[op.i].per], <<>>, <<>>)}
    \* the uploader gives up on its oldest waiting request
    [] op.op = "cancel" -> {Run([s EXCEPT !.wait = {x \in @ : \E y \in s.wait : y[1] < x[1]}], <<>>, <<>>)}

Ops(s) ==
  (IF Cardinality(s.wait) < MaxW THEN {[op |-> "req", size |-> z] : z \in Sizes} ELSE {})
  \cup {[op |-> "adv", n |-> n] : n \in Steps} \cup {[op |-> "conf", i |-> i] : i \in DOMAIN Confs}
  \cup (IF s.wait # {} THEN {[op |-> "cancel"]} ELSE {})

RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
\* within one period: the budget is exceeded by no more than the last admitted request
Inv(s) ==
  /\ s.adm # <<>> => Sum(SubSeq(s.adm, 1, Len(s.adm) - 1)) <= s.bud
  /\ s.wait # {} => s.lim
StepOk(s, op, o) ==
  LET t == o.s IN
  \* requests wait only when the budget of this period is used up, and never beyond its end
  /\ op.op = "adv" => (Expired([s EXCEPT !.now = t.now]) /\ s.wait # {} => o.res.adm # <<>>)
  /\ (op.op = "adv" /\ ~Expired([s EXCEPT !.now = t.now])) => (o.res.adm = <<>> /\ t.wait = s.wait)
  /\ (op.op = "req" /\ o.res.adm = <<>>) => Sum(t.adm) >= t.bud
  \* a change of configuration takes effect with the next period
  /\ op.op = "conf" => (t.end = s.end /\ t.rem = s.rem /\ o.res.adm = <<>>)
=============================================================================

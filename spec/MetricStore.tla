---------------------------- MODULE MetricStore ----------------------------
(* C23: the client's metric store (bd-client-stats-store, DynamicStats of bd-client-stats): identity of metrics,
   bounded number of dynamic ones, delta snapshots.  A metric is named by its scopes and name joined with ":", plus labels. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Cfgs, Gets, Fam, MaxH

Overflow == "stats:dynamic_stats_overflow#0"
RECURSIVE Join(_, _)
Join(p, name) == IF p = <<>> THEN name ELSE p[1] \o ":" \o Join(SubSeq(p, 2, Len(p)), name)
Key(g) == Join(g.path, g.name) \o "#" \o ToString(g.l)

(* ms: metrics [k, t, n: counter, a, b: samples]; hs: handles [k, t, live]; ov: refused records not yet reported;
   made, told: everything recorded, everything reported *)
S0(c) == [ms |-> <<>>, hs |-> <<>>, ov |-> 0, limit |-> c.limit, made |-> 0, told |-> 0]

At(s, k) == {i \in DOMAIN s.ms : s.ms[i].k = k}
Ask(s, k, t) == IF At(s, k) # {} THEN IF s.ms[CHOOSE i \in At(s, k) : TRUE].t = t THEN "ok" ELSE "type"
                ELSE IF Len(s.ms) >= s.limit THEN "over" ELSE "ok"
Obtain(s, k, t) == IF At(s, k) # {} THEN s ELSE [s EXCEPT !.ms = Append(@, [k |-> k, t |-> t, n |-> 0, a |-> 0, b |-> 0])]
Rec(s, k, n, two) == [s EXCEPT !.ms = [i \in DOMAIN @ |-> IF @[i].k # k THEN @[i]
                                        ELSE IF @[i].t = "c" THEN [@[i] EXCEPT !.n = @ + n]
                                        ELSE IF two THEN [@[i] EXCEPT !.b = @ + n] ELSE [@[i] EXCEPT !.a = @ + n]], !.made = @ + n]
Held(s, k) == \E h \in DOMAIN s.hs : s.hs[h].live /\ s.hs[h].k = k
Empty(m) == m.n = 0 /\ m.a = 0 /\ m.b = 0
Res(s, r) == [s |-> s, res |-> [r |-> r, snap |-> <<>>]]

RECURSIVE Sum(_)
Sum(l) == IF l = <<>> THEN 0 ELSE l[1].n + l[1].a + l[1].b + Sum(SubSeq(l, 2, Len(l)))

Outcomes(s, op) ==
  CASE op.op = "get" ->
         LET k == Key(op) r == Ask(s, k, op.t) IN
         {Res(IF r = "ok" THEN [Obtain(s, k, op.t) EXCEPT !.hs = Append(@, [k |-> k, t |-> op.t, live |-> TRUE])] ELSE s, r)}
    [] op.op = "inc" -> {Res(Rec(s, s.hs[op.h].k, op.n, op.two), "ok")}
    [] op.op = "drop" -> {Res([s EXCEPT !.hs[op.h].live = FALSE], "ok")}
    [] op.op = "dyn" ->
         LET k == Key(op) r == Ask(s, k, op.t) IN
         {Res(CASE r = "ok" -> Rec(Obtain(s, k, op.t), k, 1, FALSE) [] r = "over" -> [s EXCEPT !.ov = @ + 1] [] r = "type" -> s, "ok")}
    [] op.op = "limit" -> {Res([s EXCEPT !.limit = op.n], "ok")}
    [] op.op = "snap" ->
         LET out == SelectSeq(s.ms, LAMBDA m : ~Empty(m))
             left == SelectSeq(s.ms, LAMBDA m : ~Empty(m) \/ Held(s, m.k)) IN
         {[s |-> [s EXCEPT !.ms = [i \in DOMAIN left |-> [left[i] EXCEPT !.n = 0, !.a = 0, !.b = 0]], !.ov = 0, !.told = @ + Sum(out)],
           res |-> [r |-> "ok", snap |-> out \o (IF s.ov = 0 THEN <<>> ELSE <<[k |-> Overflow, t |-> "c", n |-> s.ov, a |-> 0, b |-> 0]>>)]]}
    [] op.op = "race" -> {Res(s, "0")}

Ops(s) ==
  {[op |-> "snap"]}
  \cup (IF "dyn" \in Fam THEN {[op |-> "dyn", path |-> <<>>, name |-> n, l |-> l, t |-> t] : n \in {"m", "a:m"}, l \in {0, 1}, t \in {"c", "h"}} ELSE {})
  \cup (IF "get" \in Fam /\ Len(s.hs) < MaxH THEN {[op |-> "get", path |-> Gets[i].path, root |-> Gets[i].root, name |-> Gets[i].name, l |-> Gets[i].l, t |-> t]
                                                   : i \in DOMAIN Gets, t \in {"c", "h"}} ELSE {})
  \cup UNION {{[op |-> "inc", h |-> h, n |-> n, two |-> w] : n \in {1, 4}, w \in BOOLEAN} \cup {[op |-> "drop", h |-> h]}
              : h \in {x \in DOMAIN s.hs : s.hs[x].live}}
  \cup (IF "limit" \in Fam THEN {[op |-> "limit", n |-> n] : n \in {0, 1, 2, 5}} ELSE {})

Inv(s) ==
  /\ \A i, j \in DOMAIN s.ms : i # j => s.ms[i].k # s.ms[j].k
  \* what was recorded was reported once or is still to be reported
  /\ s.made = s.told + Sum(s.ms)
  /\ \A h \in DOMAIN s.hs : s.hs[h].live => \E i \in DOMAIN s.ms : s.ms[i].k = s.hs[h].k /\ s.ms[i].t = s.hs[h].t
StepOk(s, op, o) ==
  /\ Len(o.s.ms) > Len(s.ms) => Len(o.s.ms) <= s.limit
  \* what nobody uses any more is gone after two snapshots
  /\ op.op = "snap" => \A i \in DOMAIN o.s.ms : Held(s, o.s.ms[i].k) \/ \E j \in DOMAIN s.ms : s.ms[j].k = o.s.ms[i].k /\ ~Empty(s.ms[j])
=============================================================================

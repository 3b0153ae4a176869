------------------------------ MODULE NetUsage ------------------------------
(* C33: the summaries added to logs on their way in (bd-logger network.rs, internal_report.rs).
   A log is [ty, msg, fs]: msg is "resp" (text "HTTPResponse"), "" (empty text), "text" or "bin" (binary content); fs is a sequence
   of [k, v] where v >= 0 is a number as text, -1 the largest 64 bit number as text, -2 text that is no number, -3 binary. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Cfgs, Logs, Steps, Quals

Keys == <<"rqb", "rqh", "rsb", "rsh">>
Kinds == <<"Device", "InternalSDK", "Lifecycle", "Span", "Normal", "Replay", "Resource">>
MAX == -1
Add(a, b) == IF a = MAX \/ b = MAX THEN MAX ELSE a + b
RECURSIVE Sum(_, _)
Sum(xs, i) == IF i > Len(xs) THEN 0 ELSE Add(xs[i], Sum(xs, i + 1))
Zero == [i \in 1..4 |-> 0]
Zeros == [i \in 1..8 |-> 0]

\* the first readable number of a name, unless a binary value comes before it; -2: none
RECURSIVE Num(_, _, _)
Num(fs, k, i) ==
  IF i > Len(fs) THEN -2
  ELSE IF fs[i].k # k \/ fs[i].v = -2 THEN Num(fs, k, i + 1)
  ELSE IF fs[i].v = -3 THEN -2 ELSE fs[i].v

S0(c) == [now |-> 0, win |-> <<[t |-> 0, v |-> Zero]>>, q |-> c.q, on |-> c.on, cnt |-> Zeros, tot |-> Zeros,
          hist |-> <<>>, began |-> 0]

\* component 1 counts every log, the others one kind each
Bump(c, ty) == [i \in 1..8 |-> IF i = 1 \/ (i > 1 /\ Kinds[IF i > 1 THEN i - 1 ELSE 1] = ty) THEN c[i] + 1 ELSE c[i]]

Outcomes(s, op) ==
  CASE op.op = "adv" -> {[s |-> [s EXCEPT !.now = @ + op.n], res |-> [q |-> s.q]]}
    [] op.op = "qual" -> {[s |-> [s EXCEPT !.q = op.q], res |-> [q |-> op.q]]}
    [] op.op = "flag" -> {[s |-> [s EXCEPT !.on = op.on], res |-> [q |-> s.q]]}
    [] op.op = "log" ->
       LET l == op.l
           resp == l.ty = "Span" /\ l.msg = "resp"
           beat == l.ty = "Resource" /\ l.msg = ""
           bytes == [i \in 1..4 |-> LET n == Num(l.fs, Keys[i], 1) IN IF n = -2 THEN 0 ELSE n]
           q2 == IF resp /\ Num(l.fs, "st", 1) # -2 THEN "online" ELSE s.q
           kept == SelectSeq(s.win, LAMBDA w : s.now - w.t <= 60)
           full == Len(kept) < Len(s.win)
           sums == [i \in 1..4 |-> Sum([j \in DOMAIN kept |-> kept[j].v[i]], 1)]
           usage == IF beat /\ full THEN <<Add(sums[1], sums[2]), sums[1], sums[2], Add(sums[3], sums[4]), sums[3], sums[4]>> ELSE <<>>
           win2 == IF beat THEN Append(kept, [t |-> s.now, v |-> Zero])
                   ELSE IF resp THEN [s.win EXCEPT ![Len(s.win)].v = [i \in 1..4 |-> Add(@[i], bytes[i])]]
                   ELSE s.win
           c2 == Bump(s.cnt, l.ty)
           t2 == Bump(s.tot, l.ty)
           rep == beat /\ s.on
           off == q2 = "offline" /\ l.ty \notin {"Resource", "Replay", "InternalSDK"} IN
       {[s |-> [s EXCEPT !.win = win2, !.q = q2, !.cnt = IF rep THEN Zeros ELSE c2, !.tot = t2,
                         !.hist = IF resp THEN Append(@, [b |-> s.began, v |-> bytes]) ELSE @,
                         !.began = IF beat THEN s.now ELSE @],
         res |-> [q |-> q2, usage |-> usage, rep |-> IF rep THEN <<c2, t2>> ELSE <<>>, off |-> off, kept |-> TRUE]]}

Ops(s) == {[op |-> "adv", n |-> n] : n \in Steps} \cup {[op |-> "log", l |-> l] : l \in Logs}
            \cup {[op |-> "qual", q |-> q] : q \in Quals \ {s.q}}
            \cup (IF Cardinality(Quals) < 3 THEN {} ELSE {[op |-> "flag", on |-> ~s.on]})

Inv(s) == /\ Len(s.win) >= 1
          /\ \A i \in 2..8 : s.cnt[i] <= s.cnt[1] /\ s.tot[i] <= s.tot[1] /\ s.cnt[i] <= s.tot[i]
\* exactness, over the whole history: the bytes reported are those of the responses whose sample began within the last minute
StepOk(s, op, o) ==
  (op.op = "log" /\ o.res.usage # <<>>) =>
    \A i \in 1..4 :
      LET xs == SelectSeq(s.hist, LAMBDA h : s.now - h.b <= 60) IN
      o.res.usage[(CASE i = 1 -> 2 [] i = 2 -> 3 [] i = 3 -> 5 [] i = 4 -> 6)] = Sum([j \in DOMAIN xs |-> xs[j].v[i]], 1)
=============================================================================

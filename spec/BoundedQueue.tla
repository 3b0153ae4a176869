---------------------------- MODULE BoundedQueue ----------------------------
(* C31: the two queues in front of log processing.
   kind "chan": memory_bound::channel (many senders, one receiver); kind "pre": PreConfigBuffer (taken as a whole).
   Items are <<id, size>>; ids are handed out in the order of the send operations. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Cfgs, Sizes, MaxS, Races

Kinds == {"ok", "count", "size", "closed"}
S0(c) == [kind |-> c.kind, maxc |-> c.maxc, maxb |-> c.maxb, q |-> <<>>, n |-> 1, tx |-> 1, rx |-> TRUE,
          cnt |-> [k \in Kinds |-> 0]]

RECURSIVE Bytes(_)
Bytes(q) == IF q = <<>> THEN 0 ELSE Head(q)[2] + Bytes(Tail(q))

Why(s, sz) ==
  (IF Len(s.q) >= s.maxc THEN {"count"} ELSE {}) \cup (IF Bytes(s.q) + sz > s.maxb THEN {"size"} ELSE {})
  \cup (IF s.rx THEN {} ELSE {"closed"})
Res(s, r, got) == [s |-> s, res |-> [r |-> r, got |-> got, cnt |-> s.cnt]]
Sent(s, sz) ==
  LET w == Why(s, sz)
      Done(t, r) == Res([t EXCEPT !.n = @ + 1, !.cnt[r] = @ + 1], r, <<>>) IN
  IF w = {} THEN {Done([s EXCEPT !.q = Append(@, <<s.n, sz>>)], "ok")} ELSE {Done(s, r) : r \in w}

Outcomes(s, op) ==
  CASE op.op = "send" -> Sent(s, op.size)
    [] op.op = "recv" -> IF s.q # <<>> THEN {Res([s EXCEPT !.q = Tail(@)], "item", <<Head(s.q)>>)}
                         ELSE {Res(s, IF s.tx = 0 THEN "end" ELSE "none", <<>>)}
    [] op.op = "all" -> {Res([s EXCEPT !.q = <<>>], "all", s.q)}
    [] op.op = "clone" -> {Res([s EXCEPT !.tx = @ + 1], "ok", <<>>)}
    [] op.op = "droptx" -> {Res([s EXCEPT !.tx = @ - 1], "ok", <<>>)}
    \* what was still queued is gone with the receiver
    [] op.op = "droprx" -> {Res([s EXCEPT !.rx = FALSE], "ok", <<>>)}
    \* threads send at once; judged by RaceOk.  The queue is empty before and after
    [] op.op = "race" -> {Res(s, "race", <<>>)}

Ops(s) ==
  IF s.kind = "pre" THEN {[op |-> "send", size |-> z] : z \in Sizes} \cup {[op |-> "all"]}
  ELSE (IF s.tx > 0 THEN {[op |-> "send", size |-> z] : z \in Sizes} \cup {[op |-> "droptx"]} ELSE {})
       \cup (IF s.tx > 0 /\ s.tx < MaxS THEN {[op |-> "clone"]} ELSE {})
       \cup (IF s.rx THEN {[op |-> "recv"]} \cup (IF s.n > 1 THEN {[op |-> "droprx"]} ELSE {}) ELSE {})
       \cup (IF s.rx /\ s.tx > 0 /\ s.q = <<>> THEN Races ELSE {})

(* A race: b.res[t] is the sequence of results of thread t (its k-th send has id t * 10000 + k), b.got what was received in order,
   b.held a lower bound of the largest number ever held, b.cnt the change of the counters. *)
RaceOk(op, b) ==
  LET R == {<<t, k>> \in (DOMAIN b.res) \X (1 .. op.n) : b.res[t][k] = "ok"}
      Id(x) == x[1] * 10000 + x[2]
      All(r) == Cardinality({<<t, k>> \in (DOMAIN b.res) \X (1 .. op.n) : b.res[t][k] = r})
      total == op.t * op.n IN
  /\ DOMAIN b.res = 1 .. op.t /\ \A t \in DOMAIN b.res : DOMAIN b.res[t] = 1 .. op.n
  /\ Len(b.got) = Cardinality(R) /\ {b.got[i] : i \in DOMAIN b.got} = {Id(x) : x \in R}
  /\ \A i, j \in DOMAIN b.got : (i < j /\ (b.got[i] \div 10000) = (b.got[j] \div 10000)) => b.got[i] < b.got[j]
  /\ b.held <= b.maxc /\ b.held * op.size <= b.maxb
  /\ b.cnt = [k \in Kinds |-> All(k)]
  /\ All("closed") = 0
  /\ All("size") > 0 => total * op.size > b.maxb
  /\ All("count") > 0 => total > b.maxc
  \* nothing is refused for ever: without a receiver at work the queue ends full unless all were accepted
  /\ ~op.recv => (All("ok") = total \/ Len(b.got) > 0 \/ op.size > b.maxb \/ b.maxc = 0)

Inv(s) == s.rx => Len(s.q) <= s.maxc /\ Bytes(s.q) <= s.maxb
StepOk(s, op, o) ==
  LET t == o.s IN
  \* order is kept and items leave only by being received
  /\ op.op = "recv" => s.q = o.res.got \o t.q
  /\ op.op = "send" => (o.res.r = "ok") = (t.q = Append(s.q, <<s.n, op.size>>)) /\ (o.res.r # "ok" => t.q = s.q)
  \* an empty open queue accepts whatever fits in it
  /\ (op.op = "send" /\ s.q = <<>> /\ s.rx /\ s.maxc > 0 /\ op.size <= s.maxb) => o.res.r = "ok"
  \* every send is counted once
  /\ op.op = "send" => \E k \in Kinds : t.cnt = [s.cnt EXCEPT ![k] = @ + 1]
=============================================================================

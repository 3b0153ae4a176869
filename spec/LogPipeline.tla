---------------------------- MODULE LogPipeline ----------------------------
(* C34: a log on its way from the application to the buffers (bd-logger async_log_buffer.rs, logging_state.rs, log_replay.rs).

   Buffers: "c" is continuous, "t" and "u" are trigger buffers, "s" is the one of live streams.  A configuration (Confs, 1 based) says
   which buffers select a tag (selC, selT, selU), which tags are streamed live (tail), marked by a filter (filt) and cause a flush of
   buffer "t" by a workflow (fire), which asks for "t" to be streamed into "c" from then on.
   A written log is [i (number), g (value of the global field), se (session), x (marked), k (kind), f (carries the action's id)];
   kind "p" is stamped with the previous process's session, "w" is the report about a log with a wrong session hint, "syn" a log made up
   so that what caused an upload is part of it. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Cfgs, Confs, Logs, Fields, Faults, Acks, Fam

Has(q, x) == \E i \in DOMAIN q : q[i] = x
Bufs == {"c", "t", "u", "s"}
NoW == [b \in Bufs |-> <<>>]

(* q: messages not taken up; pre: logs held until there is a configuration; cp: configuration on its way; dec: the server's decision
   is on its way; strm: streaming of "t" to "c"; tr: an upload of "t" is to be started; at: what the loop waits for; blk: blocking calls not returned; st: is there a stats flusher *)
S0(c) == [cap |-> c.cap, st |-> c.st, conf |-> 0, q |-> <<>>, pre |-> <<>>, cp |-> 0, dec |-> FALSE, strm |-> "no", tr |-> FALSE, g |-> 0, se |-> 1, bad |-> FALSE,
          fault |-> [b \in Bufs |-> "ok"], at |-> <<>>, blk |-> {}, n |-> 0, up |-> TRUE]
Acc0 == [w |-> NoW, done |-> {}, cnt |-> 0, lost |-> 0, ask |-> 0, trig |-> 0, sv |-> 0]

Name(B) == (IF "c" \in B THEN "c" ELSE "") \o (IF "t" \in B THEN "t" ELSE "") \o (IF "u" \in B THEN "u" ELSE "")
Sel(s, tag) == LET c == Confs[s.conf] IN (IF Has(c.selC, tag) THEN {"c"} ELSE {}) \cup (IF Has(c.selT, tag) THEN {"t"} ELSE {}) \cup (IF Has(c.selU, tag) THEN {"u"} ELSE {})

End(k, i, r) == IF i \in k.s.blk THEN [k EXCEPT !.s.blk = @ \ {i}, !.a.done = @ \cup {[i |-> i, r |-> r]}] ELSE k

\* one log through the pipeline
Proc(k, l, blk) ==
  LET s == k.s
      c == Confs[s.conf]
      sel == Sel(s, l.tag)
      dest == IF s.strm = "on" /\ "t" \in sel THEN (sel \ {"t"}) \cup {"c"} ELSE sel
      hit == Has(c.fire, l.tag)
      syn == hit /\ dest \cap {"c", "t"} = {}
      e == [i |-> l.i, g |-> l.g, se |-> l.se, x |-> Has(c.filt, l.tag), k |-> l.k, f |-> hit]
      Put(b) == (IF b \in dest THEN <<e>> ELSE <<>>) \o (IF syn /\ b = "t" THEN <<[e EXCEPT !.k = "syn"]>> ELSE <<>>)
                  \o (IF b = "s" /\ Has(c.tail, l.tag) THEN <<[e EXCEPT !.f = FALSE]>> ELSE <<>>)
      w == [b \in Bufs |-> IF s.fault[b] = "ok" THEN k.a.w[b] \o Put(b) ELSE k.a.w[b]]
      flush == sel \cup dest \cup (IF syn THEN {"t"} ELSE {})
      t == [k EXCEPT !.a.w = w, !.a.cnt = @ + 1, !.a.ask = @ + (IF hit /\ s.strm = "no" THEN 1 ELSE 0), !.s.strm = IF hit /\ @ = "no" THEN "asked" ELSE @,
                  \* a blocking log that changes the state of the workflows has it written
                  !.a.sv = @ + (IF blk /\ ((hit /\ s.strm = "no") \/ (s.strm = "on" /\ "t" \in sel)) THEN 1 ELSE 0)] IN
  IF ~blk THEN t
  ELSE IF flush # {} THEN [t EXCEPT !.s.at = <<[k |-> "buf", i |-> l.i, req |-> Name(flush)]>>]
  ELSE IF s.st THEN [t EXCEPT !.s.at = <<[k |-> "lstat", i |-> l.i, req |-> "stats"]>>]
  ELSE End(t, l.i, "done")

RECURSIVE ProcAll(_, _)
ProcAll(k, ls) == IF ls = <<>> THEN k ELSE ProcAll(Proc(k, ls[1], FALSE), Tail(ls))

\* the head of the queue
Take(k0) ==
  LET m == k0.s.q[1]
      k == [k0 EXCEPT !.s.q = Tail(@)]
      s == k.s IN
  CASE m.m = "field" -> [k EXCEPT !.s.g = m.v]
    [] m.m = "flush" -> IF s.st THEN [k EXCEPT !.s.at = <<[k |-> "fstat", i |-> m.i, req |-> "stats"]>>]
                        ELSE [k EXCEPT !.s.at = <<[k |-> "fall", i |-> m.i, req |-> "*"]>>]
    [] m.m = "log" ->
         LET l == [i |-> m.i, tag |-> m.l.tag, g |-> s.g, se |-> IF m.l.kind = "p" THEN 0 ELSE s.se, k |-> m.l.kind]
             blk == m.l.blk /\ m.l.kind # "w" IN
         IF s.bad THEN End(k, m.i, "gone")
         ELSE IF s.conf # 0 THEN (IF m.l.kind = "w" THEN End(Proc(k, l, FALSE), m.i, "gone") ELSE Proc(k, l, blk))
         ELSE IF Len(s.pre) >= s.cap THEN End([k EXCEPT !.a.lost = @ + 1], m.i, "gone")
         ELSE End([k EXCEPT !.s.pre = Append(@, l)], m.i, IF m.l.kind = "w" THEN "gone" ELSE "done")

Configure(k) ==
  LET t == [k EXCEPT !.s.conf = k.s.cp, !.s.cp = 0, !.s.pre = <<>>] IN
  IF k.s.conf = 0 THEN ProcAll(t, k.s.pre) ELSE t

\* what the loop waited for has arrived (or never will: ok = FALSE)
Wake(k0, ok) ==
  LET a == k0.s.at[1]
      k == [k0 EXCEPT !.s.at = <<>>] IN
  CASE a.k = "buf" -> IF ok /\ k.s.st THEN [k EXCEPT !.s.at = <<[k |-> "lstat", i |-> a.i, req |-> "stats"]>>] ELSE End(k, a.i, "done")
    [] a.k = "lstat" -> End(k, a.i, "done")
    [] a.k = "fstat" -> [k EXCEPT !.s.at = <<[k |-> "fall", i |-> a.i, req |-> "*"]>>]
    [] a.k = "fall" -> End(k, a.i, "done")

\* the loop runs until there is nothing to do or it waits; configurations and decisions may come at any point of the queue
RECURSIVE Runs(_, _)
Runs(k, stop) ==
  IF k.s.at # <<>> THEN (IF stop THEN Runs(Wake(k, FALSE), stop) ELSE {k})
  ELSE LET more == (IF k.s.q # <<>> THEN Runs(Take(k), stop) ELSE {})
                     \cup (IF k.s.cp # 0 THEN Runs(Configure(k), stop) ELSE {})
                     \cup (IF k.s.dec THEN Runs([k EXCEPT !.s.dec = FALSE, !.s.strm = "on", !.s.tr = TRUE], stop) ELSE {})
                     \cup (IF k.s.tr THEN Runs([k EXCEPT !.s.tr = FALSE, !.a.trig = @ + 1], stop) ELSE {}) IN
       IF stop \/ more = {} THEN more \cup {k} ELSE more

Res(k) == [w |-> k.a.w, done |-> k.a.done, cnt |-> k.a.cnt, lost |-> k.a.lost, ask |-> k.a.ask, trig |-> k.a.trig, sv |-> k.a.sv,
           req |-> IF k.s.at = <<>> THEN "no" ELSE k.s.at[1].req]
Go(s) == {[s |-> k.s, res |-> Res(k)] : k \in Runs([s |-> s, a |-> Acc0], FALSE)}
Put(s, m, blk) == IF ~s.up THEN {[s |-> s, res |-> [r |-> "closed"]]}
                  ELSE IF Len(s.q) >= s.cap THEN {[s |-> s, res |-> [r |-> "full"]]}
                  ELSE {[s |-> [s EXCEPT !.q = Append(@, m), !.blk = @ \cup blk], res |-> [r |-> "ok"]]}
Quiet(s) == {[s |-> s, res |-> [r |-> "ok"]]}

Outcomes(s, op) ==
  CASE op.op = "log" -> LET i == s.n + 1 IN Put([s EXCEPT !.n = i], [m |-> "log", i |-> i, l |-> op.l], IF op.l.blk THEN {i} ELSE {})
    [] op.op = "field" -> Put(s, [m |-> "field", v |-> op.v], {})
    [] op.op = "flush" -> LET i == s.n + 1 IN Put([s EXCEPT !.n = i], [m |-> "flush", i |-> i], IF op.blk THEN {i} ELSE {})
    [] op.op = "conf" -> Quiet([s EXCEPT !.cp = op.i])
    [] op.op = "sess" -> Quiet([s EXCEPT !.se = @ + 1])
    [] op.op = "prov" -> Quiet([s EXCEPT !.bad = ~@])
    [] op.op = "fault" -> Quiet([s EXCEPT !.fault[op.b] = op.f])
    [] op.op = "run" -> Go(s)
    [] op.op = "ack" -> LET k == Wake([s |-> s, a |-> Acc0], op.ok) IN {[s |-> r.s, res |-> Res(r)] : r \in Runs(k, FALSE)}
    [] op.op = "accept" -> Go([s EXCEPT !.dec = TRUE])
    [] op.op = "stop" ->
         LET Fin(k) == [k EXCEPT !.s = [S0([cap |-> s.cap, st |-> s.st]) EXCEPT !.up = FALSE, !.n = s.n],
                                 !.a.done = @ \cup {[i |-> i, r |-> "gone"] : i \in k.s.blk}] IN
         {LET f == Fin(k) IN [s |-> f.s, res |-> Res(f)] : k \in Runs([s |-> s, a |-> Acc0], TRUE)}

Work(s) == s.at = <<>> /\ (s.q # <<>> \/ s.cp # 0)
Ops(s) ==
  {[op |-> "log", l |-> l] : l \in Logs}
    \cup (IF ~s.up THEN {} ELSE
         {[op |-> "field", v |-> v] : v \in Fields \ {s.g}}
    \cup (IF "flush" \in Fam THEN {[op |-> "flush", blk |-> b] : b \in BOOLEAN} ELSE {})
    \cup (IF s.cp = 0 THEN {[op |-> "conf", i |-> i] : i \in DOMAIN Confs \ {s.conf}} ELSE {})
    \cup (IF "sess" \in Fam THEN {[op |-> "sess"]} ELSE {})
    \cup (IF "prov" \in Fam THEN {[op |-> "prov"]} ELSE {})
    \cup {[op |-> "fault", b |-> f[1], f |-> f[2]] : f \in {f \in Faults : s.fault[f[1]] # f[2]}}
    \cup (IF Work(s) THEN {[op |-> "run"]} ELSE {})
    \cup (IF s.at # <<>> THEN {[op |-> "ack", ok |-> b] : b \in Acks} ELSE {})
    \cup (IF s.strm = "asked" /\ ~s.dec THEN {[op |-> "accept"]} ELSE {})
    \cup (IF "stop" \in Fam THEN {[op |-> "stop"]} ELSE {}))

Ordered(q) == \A i, j \in DOMAIN q : i < j => q[i].i <= q[j].i
Inv(s) ==
  /\ Len(s.q) <= s.cap /\ Len(s.pre) <= s.cap
  /\ s.conf # 0 => s.pre = <<>>
  /\ \A i \in DOMAIN s.at : TRUE
  /\ \A i \in s.blk : (\E j \in DOMAIN s.q : s.q[j].m # "field" /\ s.q[j].i = i) \/ (\E j \in DOMAIN s.at : s.at[j].i = i)
IsRun(op) == op.op \in {"run", "ack", "accept", "stop"}
StepOk(s, op, o) ==
  IsRun(op) =>
    LET rs == o.res
        all == UNION {{rs.w[b][j] : j \in DOMAIN rs.w[b]} : b \in Bufs}
        held == {s.q[j].i : j \in {j \in DOMAIN s.q : s.q[j].m # "field"}} \cup {s.pre[j].i : j \in DOMAIN s.pre} IN
    \* in order, and only what was accepted and not written before
    /\ \A b \in Bufs : Ordered(rs.w[b])
    /\ \A e \in all : e.i \in held
    \* a log written by this step is not held any more
    /\ \A e \in all : ~\E j \in DOMAIN o.s.pre : o.s.pre[j].i = e.i
    \* what fired an upload of "t" is in it or in a buffer that is uploaded anyway, unless the buffer refuses writes
    /\ (\E e \in all : e.f) => \A e \in {e \in all : e.f} :
         (o.s.fault["t"] = "ok" /\ o.s.fault["c"] = "ok") => \E b \in {"c", "t"} : \E j \in DOMAIN rs.w[b] : rs.w[b][j].i = e.i
    \* no caller waits for something that is over
    /\ \A d \in rs.done : d.i \in s.blk /\ d.i \notin o.s.blk
=============================================================================

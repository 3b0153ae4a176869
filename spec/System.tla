------------------------------ MODULE System ------------------------------
(* C43: the whole SDK, from the public logger handle (bd-logger logger.rs, builder.rs) to the server.

   A configuration (Confs, 1 based) has a continuous buffer "c" and a trigger buffer "t", given by the tags of the logs they take ("*": every log;
   none: there is no such buffer), the tags a counter counts (met) and those that flush "t" (fire).  Number Len(Confs) + 1 cannot be used.
   What the server gets of a log: [i (number), k (kind), tag, g (global field), se (session), off (made offline), f (caused a flush), pv (previous app
   version)]; the driver compares everything else (message, level, type, fields, time) with what was logged.  After every operation as much time
   passes as deliveries take. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Cfgs, Confs, Tags, Fam

Has(q, x) == \E i \in DOMAIN q : q[i] = x

(* proc: processes so far; conf: configuration in use; pre: logs held until there is one; c, t: contents of the buffers that the server does not have;
   ps: session at the end of the previous process; q: what is known about the network; app: version noted; rt: does the SDK have the runtime values; m: counts not yet uploaded;
   tries: starts since the server was last reached (after more than 5 the runtime values are given up: C24, not gone into here);
   want: a flush of "t" has been asked for, and the server has not been reached since *)
S0(c) == [proc |-> 0, net |-> FALSE, conf |-> 0, pre |-> <<>>, c |-> <<>>, t |-> <<>>, g |-> 0, se |-> 0, ps |-> 0, off |-> FALSE, app |-> 0, rt |-> FALSE, m |-> 0, n |-> 0, want |-> FALSE, tries |-> 0]

None == [c |-> <<>>, t |-> <<>>, hs |-> <<>>, ack |-> "", asks |-> 0, stat |-> 0, sid |-> 0, dev |-> TRUE, r |-> "ok"]

Takes(q, tag) == Has(q, "*") \/ Has(q, tag)

\* one log through the pipeline; a = [s, r]
Put(a, e) ==
  LET s == a.s
      cf == Confs[s.conf]
      f == Has(cf.fire, e.tag)
      x == [e EXCEPT !.f = f]
      u == [s EXCEPT !.c = IF Takes(cf.c, e.tag) THEN Append(@, x) ELSE @, !.t = IF Takes(cf.t, e.tag) THEN Append(@, x) ELSE @,
                     !.m = @ + (IF Has(cf.met, e.tag) THEN 1 ELSE 0), !.want = @ \/ f] IN
  [a EXCEPT !.s = u]

Log(a, e) == IF a.s.conf = 0 THEN [a EXCEPT !.s.pre = Append(@, e)] ELSE Put(a, e)

Entry(s, i, k, tag, pv) ==
  [i |-> i, k |-> k, tag |-> tag, g |-> s.g, se |-> IF k = "p" THEN s.ps ELSE s.se, off |-> s.off /\ k \notin {"res", "screen", "shot"}, f |-> FALSE, pv |-> pv]

RECURSIVE Replay(_, _)
Replay(a, q) == IF q = <<>> THEN a ELSE Replay(Put(a, q[1]), Tail(q))

RECURSIVE LogAll(_, _, _)
LogAll(a, k, tags) ==
  IF tags = <<>> THEN a
  ELSE LET n == a.s.n + 1 IN LogAll(Log([a EXCEPT !.s.n = n], Entry(a.s, n, k, tags[1], 0)), k, Tail(tags))

\* time passes: whatever is due is delivered; the server agrees to a flush asked for, and gets all that "t" has
Due(a) ==
  LET s == a.s
      b == IF s.net THEN [s |-> [s EXCEPT !.c = <<>>, !.m = 0], r |-> [a.r EXCEPT !.c = s.c, !.stat = s.m]] ELSE a
      d == IF s.net /\ s.want THEN [s |-> [b.s EXCEPT !.t = <<>>, !.want = FALSE], r |-> [b.r EXCEPT !.asks = 1, !.t = s.t]] ELSE b IN
  [d EXCEPT !.r.sid = s.se, !.s.off = ~s.net, !.s.tries = IF s.net THEN 0 ELSE @]

\* the connection is made
Connect(a) == [a EXCEPT !.r.hs = <<[conf |-> IF a.s.conf = 0 THEN "" ELSE ToString(a.s.conf), rt |-> IF a.s.rt THEN "r" ELSE ""]>>, !.s.rt = TRUE]

AnyFire(tags) == \E i \in DOMAIN tags : \E j \in DOMAIN Confs : Has(Confs[j].fire, tags[i])
KTags == {<<"n", <<t>>>> : t \in Tags} \cup {<<"y", <<"y">>>>}
Ops(s) ==
  IF s.proc = 0 THEN {[op |-> "start", how |-> "stop", net |-> b] : b \in BOOLEAN}
  ELSE {[op |-> "log", k |-> x[1], tags |-> x[2], blk |-> FALSE, ins |-> FALSE] : x \in KTags}
       \cup (IF "log" \in Fam THEN {[op |-> "log", k |-> "n", tags |-> <<t>>, blk |-> TRUE, ins |-> FALSE] : t \in Tags}
                               \cup {[op |-> "log", k |-> "n", tags |-> <<"a">>, blk |-> b, ins |-> TRUE] : b \in BOOLEAN}
                               \cup {[op |-> "log", k |-> "n", tags |-> x, blk |-> FALSE, ins |-> FALSE] : x \in {y \in {<<"b", "a", "b">>, <<"b", "b">>} : ~AnyFire(y)}}
                               \cup (IF s.ps > 0 THEN {[op |-> "log", k |-> "p", tags |-> <<"p">>, blk |-> FALSE, ins |-> FALSE]} ELSE {}) ELSE {})
       \cup (IF "call" \in Fam THEN {[op |-> "call", k |-> k] : k \in {"res", "screen", "shot", "sdk"}} \cup {[op |-> "upd", v |-> v] : v \in 1 .. 3} ELSE {})
       \cup (IF "state" \in Fam THEN {[op |-> "field", v |-> v] : v \in 0 .. 2} \cup {[op |-> "session"]} ELSE {})
       \cup {[op |-> "net", up |-> ~s.net]}
       \cup (IF s.net THEN {[op |-> "conf", i |-> i] : i \in 1 .. Len(Confs) + 1} \cup {[op |-> "ask", ids |-> x] : x \in {<<"t">>, <<"z", "t">>}} ELSE {})
       \cup (IF "start" \in Fam THEN {[op |-> "start", how |-> h, net |-> b] : h \in {"stop", "kill"}, b \in IF s.tries < 4 THEN BOOLEAN ELSE {TRUE}} ELSE {})

Is(a) == LET d == Due(a) IN {[s |-> d.s, res |-> d.r]}

Outcomes(s, op) ==
  LET a == [s |-> s, r |-> None] IN
  CASE op.op = "start" ->
         LET t == [s EXCEPT !.proc = @ + 1, !.tries = @ + 1, !.net = op.net, !.pre = <<>>, !.g = 0, !.se = @ + 1, !.ps = s.se, !.off = FALSE] IN
         Is(IF op.net THEN Connect([a EXCEPT !.s = t]) ELSE [a EXCEPT !.s = t])
    [] op.op = "net" ->
         LET t == [a EXCEPT !.s.net = op.up] IN Is(IF op.up THEN Connect(t) ELSE t)
    [] op.op = "conf" ->
         IF op.i > Len(Confs) THEN Is([a EXCEPT !.r.ack = (IF s.conf = 0 THEN "" ELSE ToString(s.conf)) \o "!"])
         ELSE LET t == [a EXCEPT !.s.conf = op.i, !.s.pre = <<>>, !.r.ack = ToString(op.i), !.s.t = IF Confs[op.i].t = <<>> THEN <<>> ELSE @] IN
              Is(IF s.conf = 0 THEN Replay(t, s.pre) ELSE t)
    [] op.op = "ask" -> Is([a EXCEPT !.r.t = s.t, !.s.t = <<>>])
    [] op.op = "log" -> Is(LogAll(a, op.k, op.tags))
    [] op.op = "call" -> Is(LogAll(a, op.k, <<op.k>>))
    [] op.op = "upd" ->
         LET b == [a EXCEPT !.s.n = @ + 1, !.s.app = op.v, !.r.r = IF s.app \notin {0, op.v} THEN "yes" ELSE "no"] IN
         Is(IF s.app \in {0, op.v} THEN b ELSE Log(b, Entry(s, s.n + 1, "upd", "upd", s.app)))
    [] op.op = "field" -> Is([a EXCEPT !.s.g = op.v])
    [] op.op = "session" -> Is([a EXCEPT !.s.se = @ + 1])

Sorted(q) == \A i \in 1 .. Len(q) - 1 : q[i].i < q[i + 1].i
Inv(s) == /\ Sorted(s.c) /\ Sorted(s.t) /\ Sorted(s.pre)
          /\ (s.net => s.c = <<>> /\ s.m = 0)
          /\ (s.conf # 0 => s.pre = <<>>)
          /\ \A q \in {s.c, s.t, s.pre} : \A i \in DOMAIN q : q[i].i <= s.n /\ q[i].se <= s.se

(* In order, nothing twice: what the server gets and what is still held are disjoint; every log made is at its destination or on its way there. *)
Ids(q) == {q[i].i : i \in DOMAIN q}
StepOk(s, op, o) ==
  /\ Sorted(o.res.c) /\ Sorted(o.res.t)
  /\ Ids(o.res.c) \cap Ids(o.s.c) = {} /\ Ids(o.res.t) \cap Ids(o.s.t) = {}
  /\ Ids(s.c) \subseteq Ids(o.res.c) \cup Ids(o.s.c)
  /\ (op.op # "conf" => Ids(s.t) \subseteq Ids(o.res.t) \cup Ids(o.s.t))
  /\ (op.op \notin {"conf", "start"} => Ids(s.pre) \subseteq Ids(o.s.pre))
  /\ (op.op = "start" => o.s.c \o o.res.c # <<>> \/ s.c = <<>>)
  /\ (~o.s.net => o.res.c = <<>> /\ o.res.t = <<>> /\ o.res.stat = 0)
=============================================================================

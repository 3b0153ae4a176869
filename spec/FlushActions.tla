---------------------------- MODULE FlushActions ----------------------------
(* C28: buffer uploads triggered by workflows (bd-workflows: actions_flush_buffers.rs, engine.rs).

   cfg.acts: actions [id, bufs, strm (is streaming asked for), dest, max], ids ascending; message "m<i>" triggers
   action i, "all" triggers all of them;  cfg.order: names of continuous buffers, ascending;
   cfg.confs: buffer configurations [trig, cont, wf (are there workflows)];  cfg.conf: the first one. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Cfgs, Dests, Sessions, Fam

Set(q) == {q[i] : i \in DOMAIN q}
Pick(q, T(_)) == LET RECURSIVE F(_) F(i) == IF i > Len(q) THEN <<>> ELSE (IF T(q[i]) THEN <<q[i]>> ELSE <<>>) \o F(i + 1) IN F(1)
Map(q, f(_)) == [i \in DOMAIN q |-> f(q[i])]
Min(a, b) == IF a < b THEN a ELSE b
RECURSIVE Least(_)
Least(q) == IF Len(q) = 1 THEN q[1] ELSE Min(q[1], Least(Tail(q)))
Never == 1000000

(* pend: actions whose upload is negotiated [id, sess, bufs, dest, max] (dest = {}: no streaming), by id;
   neg: what the negotiator has been given, the head is at the server if fly; out: decisions [id, ok] not yet seen by
   the engine; rej: refused by the server;  strm: active streams [id, sess, src, dest, max, n];
   open: flushes asked for and not answered, ids in order;
   disk: what was last written, or <<>>; dirty: there is something to write *)
S0(c) == [c |-> c, conf |-> c.conf, sess |-> "", pend |-> <<>>, neg |-> <<>>, fly |-> FALSE, out |-> <<>>, rej |-> {},
          strm |-> <<>>, open |-> <<>>, disk |-> <<>>, dirty |-> FALSE]

Conf(s) == s.c.confs[s.conf]
Trig(s) == Set(Conf(s).trig)
Cont(s) == Set(Conf(s).cont)
Ids(q) == {q[i].id : i \in DOMAIN q}
Rank(s, id) == CHOOSE i \in DOMAIN s.c.acts : s.c.acts[i].id = id
ById(s, q) == LET RECURSIVE F(_) F(i) == IF i > Len(s.c.acts) THEN <<>> ELSE Pick(q, LAMBDA p : p.id = s.c.acts[i].id) \o F(i + 1) IN F(1)

\* the buffers an action is about, with this configuration
Make(s, a) ==
  LET bufs == IF a.bufs = <<>> THEN Trig(s) ELSE Set(a.bufs) \cap Trig(s)
      first == Pick(s.c.order, LAMBDA b : b \in Cont(s))
      dest == IF ~a.strm \/ first = <<>> THEN {} ELSE IF a.dest = <<>> THEN {first[1]} ELSE Set(a.dest) \cap Cont(s) IN
  [id |-> a.id, sess |-> s.sess, bufs |-> bufs, dest |-> dest, max |-> IF dest = {} \/ a.max = <<>> THEN Never ELSE Least(a.max)]
StdP(s, q) == Pick(Map(q, LAMBDA p : [p EXCEPT !.bufs = @ \cap Trig(s)]), LAMBDA p : p.bufs # {})
StdS(s, q) == Pick(Map(q, LAMBDA p : [p EXCEPT !.src = @ \cap Trig(s), !.dest = @ \cap Cont(s)]), LAMBDA p : p.src # {} /\ p.dest # {})

\* the negotiator: one request at a time, what was refused is not asked again
RECURSIVE Nego(_)
Nego(k) ==
  LET s == k.s IN
  IF s.fly \/ s.neg = <<>> THEN k
  ELSE LET h == s.neg[1] IN
       IF h.id \in s.rej THEN Nego([k EXCEPT !.s.neg = Tail(@), !.s.out = Append(@, [id |-> h.id, ok |-> FALSE])])
       ELSE [s |-> [s EXCEPT !.fly = TRUE], reqs |-> Append(k.reqs, [id |-> h.id, bufs |-> h.bufs])]
Ask(s) == Nego([s |-> s, reqs |-> <<>>])

-----------------------------------------------------------------------------
Hit(s, m) == IF ~Conf(s).wf THEN <<>> ELSE Pick([i \in DOMAIN s.c.acts |-> [i |-> i, a |-> s.c.acts[i]]], LAMBDA x : m = "all" \/ m = "m" \o ToString(x.i))

Log(s0, op) ==
  LET changed == s0.sess \notin {"", op.sess}
      s == [s0 EXCEPT !.sess = op.sess, !.dirty = @ \/ changed]
      dest == Set(op.dest) IN
  IF ~Conf(s).wf /\ s.strm = <<>> THEN [s |-> s, res |-> [dest |-> dest, ids |-> {}, bufs |-> {}, reqs |-> <<>>]]
  ELSE LET live == Pick(s.strm, LAMBDA a : ~((a.n >= a.max \/ a.sess # s.sess) /\ a.id \notin Set(s.open)))
           To(a) == a.src \cap dest # {}
           moved == UNION {live[i].src \cap dest : i \in DOMAIN live}
           into == UNION {live[i].dest : i \in {i \in DOMAIN live : To(live[i])}}
           strm == Map(live, LAMBDA a : IF To(a) THEN [a EXCEPT !.n = @ + 1] ELSE a)
           hit == Map(Hit(s, op.m), LAMBDA x : Make(s, x.a))
           some == Pick(hit, LAMBDA p : p.bufs # {})
           new == Pick(some, LAMBDA p : p.id \notin Ids(s.pend) \cup Ids(strm))
           t == [s EXCEPT !.strm = strm, !.pend = ById(s, @ \o new), !.neg = @ \o new,
                          !.dirty = @ \/ strm # s.strm \/ new # <<>>]
           k == Ask(t) IN
       [s |-> k.s, res |-> [dest |-> into \cup ((dest \cap (Trig(s) \cup Cont(s))) \ moved), ids |-> Ids(hit),
                            bufs |-> UNION {some[i].bufs : i \in DOMAIN some}, reqs |-> k.reqs]]

Answer(s, op) ==
  LET h == s.neg[1]
      k == IF op.a = "close" THEN [s |-> s, reqs |-> <<[id |-> h.id, bufs |-> h.bufs]>>]
           ELSE Ask([s EXCEPT !.neg = Tail(@), !.fly = FALSE, !.out = Append(@, [id |-> h.id, ok |-> op.a = "accept"]),
                              !.rej = IF op.a = "drop" THEN @ \cup {h.id} ELSE @]) IN
  [s |-> k.s, res |-> [reqs |-> k.reqs]]

\* the engine learns the decisions
RECURSIVE Decide(_)
Decide(k) ==
  IF k.s.out = <<>> THEN k
  ELSE LET d == k.s.out[1]
           s == [k.s EXCEPT !.out = Tail(@)]
           mine == Pick(s.pend, LAMBDA p : p.id = d.id)
           rest == Pick(s.pend, LAMBDA p : p.id # d.id) IN
       IF ~d.ok THEN Decide([k EXCEPT !.s = [s EXCEPT !.pend = rest, !.dirty = TRUE]])
       ELSE IF mine = <<>> THEN Decide([k EXCEPT !.s = s])
       ELSE LET p == mine[1]
                again == p.id \in Set(s.open)
                into == p.dest \cap Cont(s) IN
            Decide([s |-> [s EXCEPT !.pend = rest, !.dirty = TRUE, !.open = IF again THEN @ ELSE Append(@, p.id),
                                    !.strm = IF into = {} THEN @ ELSE Append(@, [id |-> p.id, sess |-> p.sess, src |-> p.bufs, dest |-> into, max |-> p.max, n |-> 0])],
                    fl |-> IF again THEN k.fl ELSE Append(k.fl, p.bufs)])
Run(s) == LET k == Decide([s |-> s, fl |-> <<>>]) IN [s |-> k.s, res |-> [fl |-> k.fl]]

Drop(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Update(s, op) == LET t == [s EXCEPT !.conf = op.conf] IN [t EXCEPT !.pend = StdP(t, @), !.strm = StdS(t, @)]
Restart(s, op) ==
  LET t == [S0(s.c) EXCEPT !.conf = op.conf, !.disk = s.disk] IN
  IF s.disk = <<>> THEN [s |-> t, res |-> [reqs |-> <<>>]]
  ELSE LET d == s.disk[1]
           p == StdP(t, d.pend)
           k == Ask([t EXCEPT !.sess = d.sess, !.pend = p, !.neg = p, !.strm = StdS(t, d.strm)]) IN
       [s |-> k.s, res |-> [reqs |-> k.reqs]]

Outcomes(s, op) == {
  CASE op.op = "log" -> Log(s, op)
    [] op.op = "answer" -> Answer(s, op)
    [] op.op = "run" -> Run(s)
    [] op.op = "flushed" -> [s |-> [s EXCEPT !.open = Drop(@, op.k)], res |-> [fl |-> <<>>]]
    [] op.op = "update" -> [s |-> Update(s, op), res |-> [fl |-> <<>>]]
    [] op.op = "persist" -> [s |-> IF s.dirty THEN [s EXCEPT !.dirty = FALSE, !.disk = <<[pend |-> s.pend, strm |-> s.strm, sess |-> s.sess]>>] ELSE s,
                             res |-> [wrote |-> s.dirty]]
    [] op.op = "restart" -> Restart(s, op)}

Ops(s) ==
  {[op |-> "log", m |-> m, dest |-> d, sess |-> x] : m \in {"x", "all"} \cup {"m" \o ToString(i) : i \in DOMAIN s.c.acts}, d \in Dests,
     x \in IF Len(s.neg) > 6 \/ Len(s.out) > 8 THEN {} ELSE Sessions}
  \cup (IF s.fly THEN {[op |-> "answer", a |-> a] : a \in {"accept", "drop", "close"}} ELSE {})
  \cup (IF s.out # <<>> THEN {[op |-> "run"]} ELSE {})
  \cup {[op |-> "flushed", k |-> k, how |-> h] : k \in {1, Len(s.open)} \ {0}, h \in IF s.open = <<>> THEN {} ELSE {"done", "lost"}}
  \cup (IF "update" \in Fam THEN {[op |-> "update", conf |-> i] : i \in DOMAIN s.c.confs} ELSE {})
  \cup (IF "persist" \in Fam /\ s.dirty THEN {[op |-> "persist"]} ELSE {})
  \cup (IF "restart" \in Fam /\ s.disk # <<>> THEN {[op |-> "restart", conf |-> i] : i \in DOMAIN s.c.confs} ELSE {})

-----------------------------------------------------------------------------
Uniq(q) == \A i, j \in DOMAIN q : q[i].id = q[j].id => i = j
\* only buffers that exist, one thing at a time for each action
Inv(s) ==
  /\ Uniq(s.pend) /\ Uniq(s.strm) /\ Ids(s.pend) \cap Ids(s.strm) = {} /\ Cardinality(Set(s.open)) = Len(s.open)
  /\ \A i \in DOMAIN s.pend : s.pend[i].bufs # {} /\ s.pend[i].bufs \subseteq Trig(s)
  /\ \A i \in DOMAIN s.strm : /\ s.strm[i].src \subseteq Trig(s) /\ s.strm[i].dest \subseteq Cont(s)
                              /\ s.strm[i].src # {} /\ s.strm[i].dest # {}
  \* whatever is pending is being negotiated or has been decided about
  /\ Ids(s.pend) \subseteq Ids(s.neg) \cup Ids(s.out)

StepOk(s, op, o) ==
  CASE op.op = "log" ->
         LET dest == Set(op.dest) IN
         \* nothing that is under way is started again, nothing refused is asked for again
         /\ \A i \in DOMAIN o.res.reqs : o.res.reqs[i].id \notin s.rej \cup Ids(s.pend)
         /\ \A i \in DOMAIN o.s.pend : o.s.pend[i].id \notin Ids(s.pend) => o.s.pend[i].id \notin Ids(o.s.strm)
         \* logs go where they were meant to go or to where they are streamed, and never to a source of a stream
         /\ (Conf(s).wf \/ s.strm # <<>>) => o.res.dest \subseteq Trig(s) \cup Cont(s)
         /\ \A i \in DOMAIN o.s.strm : \/ o.s.strm[i].src \cap dest = {}
                                       \/ o.s.strm[i].src \cap o.res.dest = {} /\ o.s.strm[i].dest \subseteq o.res.dest
         /\ (\A i \in DOMAIN o.s.strm : o.s.strm[i].src \cap dest = {}) /\ dest \subseteq Trig(s) \cup Cont(s) => o.res.dest = dest
         \* streams end
         /\ \A i \in DOMAIN o.s.strm : o.s.strm[i].id \in Set(s.open) \/ (o.s.strm[i].n <= o.s.strm[i].max /\ o.s.strm[i].sess = op.sess)
    [] op.op = "run" ->
         /\ \A i \in DOMAIN o.res.fl : o.res.fl[i] # {} /\ o.res.fl[i] \subseteq Trig(s)
         /\ Len(o.res.fl) = Len(o.s.open) - Len(s.open) /\ o.s.rej = s.rej
    [] op.op = "answer" -> \A i \in DOMAIN o.res.reqs : o.res.reqs[i].id \notin o.s.rej
    [] op.op = "restart" -> Ids(o.s.strm) \subseteq Ids(s.disk[1].strm) /\ Ids(o.s.pend) \subseteq Ids(s.disk[1].pend)
    [] OTHER -> TRUE
=============================================================================

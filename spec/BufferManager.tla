--------------------------- MODULE BufferManager ---------------------------
(* C17: the set of buffers follows the configuration, flush requests are answered.  Each buffer is an
   instance of Aggregate (memory in front of a file); requests to flush are served one after the other.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

\* cfg: hold (whoever uses a buffer keeps it after it was removed, until "letgo")
CONSTANTS Cfgs, Confs, MaxRecs, Fam
A == INSTANCE Aggregate WITH Cfgs <- {}, Sizes <- {}, MaxLive <- 0, Fam <- {}
R == INSTANCE RingBuf WITH Cfgs <- {}, Sizes <- {}, MaxLive <- 0, Fam <- {}
Len0 == 12
ACfg(t) == [over |-> t = "t", vn |-> 32, nn |-> 40]

\* objs: id |-> [t, a, own ("in" the configuration, or only "held"), use ("no", "open", "mid" (a record is being read))]
\* disk: files without a buffer; fl: requests [q, ids]; cur: what is being flushed
S0(c) == [c |-> c, objs |-> <<>>, disk |-> <<>>, stream |-> FALSE, fl |-> <<>>, cur |-> "none"]
Dom(f) == DOMAIN f
Put(f, k, v) == (k :> v) @@ f
Del(f, k) == [x \in Dom(f) \ {k} |-> f[x]]
One(S) == CHOOSE x \in S : TRUE
In(s) == {i \in Dom(s.objs) : s.objs[i].own = "in"}

\* a buffer on a file (bad: cannot be read any more)
Image(s, id) == IF id \in Dom(s.disk) /\ ~s.disk[id].bad THEN s.disk[id].n ELSE R!Image(R!S0(A!NCfg(ACfg("t"))))
Make(s, id, t) ==
  LET a0 == A!Fresh(ACfg(t), [Image(s, id) EXCEPT !.c = A!NCfg(ACfg(t))])
      o == One(A!Outcomes(a0, [op |-> "regp", p |-> 1])) IN
  [t |-> t, a |-> o.s, own |-> "in", use |-> "no"]

\* nobody refers to it any more: an orderly shutdown, then the file is deleted or stays
End(obj) == One(A!Reopen(obj.a)).s.n

-----------------------------------------------------------------------------
(* Flush requests *)
K(s) == [s |-> s, done |-> <<>>]
Tgt(s, ids) == ids
RECURSIVE Serve(_)
Serve(k) ==
  LET s == k.s IN
  IF s.cur # "none" \/ s.fl = <<>> THEN k
  ELSE LET h == s.fl[1] IN
       IF h.ids = <<>> THEN Serve([s |-> [s EXCEPT !.fl = Tail(@)], done |-> Append(k.done, [a |-> h.q, r |-> "ok"])])
       ELSE LET id == h.ids[1]
                t == [s EXCEPT !.fl[1].ids = Tail(@)] IN
            \* one that does not exist does not matter
            IF id \notin In(s) THEN Serve([k EXCEPT !.s = t])
            ELSE LET o == One(A!Outcomes(s.objs[id].a, [op |-> "flush", a |-> "f"]))
                     u == [t EXCEPT !.objs[id].a = o.s] IN
                 IF o.res.r = "wait" THEN [k EXCEPT !.s = [u EXCEPT !.cur = id]] ELSE Serve([k EXCEPT !.s = u])

\* an operation on one buffer
At(s, id, op) == One(A!Outcomes(s.objs[id].a, op))
On(s, id, op, f(_)) ==
  LET o == At(s, id, op)
      t == [s EXCEPT !.objs[id].a = o.s]
      freed == \E i \in DOMAIN o.res.done : o.res.done[i].a = "f"
      k == IF freed THEN Serve(K([t EXCEPT !.cur = "none"])) ELSE K(t) IN
  [s |-> f(k.s), r |-> o.res.r, done |-> k.done]
Id(s) == s

-----------------------------------------------------------------------------
(* Configuration updates: all or nothing *)
Ids(conf) == {conf[i].id : i \in DOMAIN conf}
Known(s, i) == i \in In(s)
\* entries are handled in order; used: ids that cannot be opened (a buffer has them already)
RECURSIVE Build(_, _, _, _, _)
Build(s, conf, cur, new, order) ==
  IF conf = <<>> THEN [ok |-> TRUE, keep |-> In(s) \ cur, gone |-> cur, new |-> new, order |-> order]
  ELSE LET e == conf[1] IN
       IF e.bad = "type" THEN [ok |-> FALSE, new |-> new]
       ELSE IF e.id \in cur THEN Build(s, Tail(conf), cur \ {e.id}, new, order)
       ELSE IF e.bad = "size" \/ e.id \in Dom(s.objs) \/ e.id \in Dom(new) THEN [ok |-> FALSE, new |-> new]
       ELSE Build(s, Tail(conf), cur, Put(new, e.id, Make(s, e.id, e.t)), Append(order, [id |-> e.id, t |-> e.t]))

Drop(s, ids) == [s EXCEPT !.objs = [i \in Dom(s.objs) \ ids |-> s.objs[i]]]
Update(s, op) ==
  LET b == Build(s, op.conf, In(s), <<>>, <<>>) IN
  IF ~b.ok
  THEN [s |-> [s EXCEPT !.disk = [i \in Dom(s.disk) \cup Dom(b.new) |->
                        IF i \in Dom(b.new) THEN [n |-> End(b.new[i]), bad |-> FALSE] ELSE s.disk[i]]],
        r |-> "err", rem |-> {}, add |-> <<>>, stream |-> "no"]
  ELSE LET held == [i \in Dom(s.objs) |-> IF i \in b.gone THEN [s.objs[i] EXCEPT !.own = "held"] ELSE s.objs[i]]
           t == [s EXCEPT !.objs = b.new @@ held,
                          !.disk = [i \in Dom(s.disk) \ Dom(b.new) |-> s.disk[i]],
                          !.stream = op.stream]
           u == IF s.c.hold THEN t ELSE Drop(t, b.gone) IN
       [s |-> u, r |-> "ok", rem |-> b.gone, add |-> b.order,
        stream |-> IF s.stream = op.stream THEN "no" ELSE IF op.stream THEN "added" ELSE "removed"]

Restart(s) ==
  LET keep == {i \in Dom(s.objs) : s.objs[i].own = "in"} IN
  [S0(s.c) EXCEPT !.disk = [i \in keep |-> [n |-> End(s.objs[i]), bad |-> FALSE]] @@ s.disk]

-----------------------------------------------------------------------------
Base(s) == [files |-> Dom(s.objs) \cup Dom(s.disk), bufs |-> {<<i, s.objs[i].t>> : i \in In(s)}]
Res(k, r) == {[s |-> k.s, res |-> [r |-> r, done |-> k.done, rem |-> {}, add |-> <<>>, stream |-> "no"] @@ Base(k.s)]}
Use(id, u, s) == [s EXCEPT !.objs[id].use = u]

RSetU(id, u) == [id |-> id, u |-> u]
Then(k, id, op, u) ==
  LET o == On(k.s, id, op, Id) IN [s |-> o.s, r |-> o.r, done |-> k.done \o o.done, id |-> id, u |-> u]

Outcomes(s, op) ==
  CASE op.op = "update" ->
         LET u == Update(s, op) IN
         {[s |-> u.s, res |-> [r |-> u.r, done |-> <<>>, rem |-> u.rem, add |-> u.add, stream |-> u.stream] @@ Base(u.s)]}
    [] op.op = "write" ->
         LET a == Then(K(s), op.id, [op |-> "reserve", p |-> 1, id |-> op.rec, len |-> Len0, block |-> FALSE], "") IN
         IF a.r # "ok" THEN Res(a, a.r) ELSE LET b == Then(a, op.id, [op |-> "commit", p |-> 1], "") IN Res(b, b.r)
    \* the uploader: a cursor for a continuous buffer; for a trigger buffer everything is locked and flushed first
    [] op.op = "open" ->
         IF s.objs[op.id].t = "c" THEN LET a == Then(K(s), op.id, [op |-> "regc"], "") IN Res([a EXCEPT !.s = Use(op.id, "open", a.s)], a.r)
         ELSE LET a == Then(K(s), op.id, [op |-> "lock"], "")
                  c == Then(a, op.id, [op |-> "regc"], "") IN Res([c EXCEPT !.s = Use(op.id, "open", c.s)], c.r)
    [] op.op = "read" ->
         LET a == Then(K(s), op.id, [op |-> "start", how |-> "no"], "") IN
         IF s.objs[op.id].t = "c" THEN Res([a EXCEPT !.s = Use(op.id, IF a.r \in {"Unavailable"} THEN "open" ELSE "mid", a.s)], a.r)
         ELSE IF a.r = "Unavailable" THEN Res(a, a.r)
         ELSE Res(Then(a, op.id, [op |-> "finish"], ""), a.r)
    [] op.op = "ack" -> LET a == Then(K(s), op.id, [op |-> "finish"], "") IN Res([a EXCEPT !.s = Use(op.id, "open", a.s)], a.r)
    [] op.op = "close" ->
         LET a == Then(K(s), op.id, [op |-> "dropc"], "")
             b == Then(a, op.id, [op |-> "unlock"], "") IN Res([b EXCEPT !.s = Use(op.id, "no", b.s)], "ok")
    [] op.op = "flush" ->
         LET ids == IF op.ids = <<>> THEN SetToSeq(In(s)) ELSE op.ids
             k == Serve(K([s EXCEPT !.fl = Append(@, [q |-> op.q, ids |-> ids])])) IN
         LET mine == \E i \in DOMAIN k.done : k.done[i].a = op.q IN
         Res([k EXCEPT !.done = SelectSeq(@, LAMBDA d : d.a # op.q)], IF mine THEN "ok" ELSE "wait")
    [] op.op = "letgo" -> Res(K([Drop(s, {op.id}) EXCEPT !.cur = @]), "ok")
    [] op.op = "restart" -> Res(K(Restart(s)), "ok")
    [] op.op = "corrupt" -> Res(K([s EXCEPT !.disk[op.id].bad = TRUE]), "ok")

-----------------------------------------------------------------------------
Busy(s) == s.fl # <<>> \/ s.cur # "none"
Recs(o) == A!Ids(o.a)
FreshRec(s) == CHOOSE i \in 1 .. 50 : (\A x \in Dom(s.objs) : i \notin Recs(s.objs[x])) /\ (\A x \in Dom(s.disk) : i \notin R!Ids(s.disk[x].n))
                 /\ \A j \in 1 .. i - 1 : (\E x \in Dom(s.objs) : j \in Recs(s.objs[x])) \/ (\E x \in Dom(s.disk) : j \in R!Ids(s.disk[x].n))
Qs(s) == {s.fl[i].q : i \in DOMAIN s.fl}
Of(s, t) == {i \in Dom(s.objs) : s.objs[i].t = t}
When(f, x) == IF f THEN x ELSE {}
FlushSets == {<<>>, <<"a">>, <<"b">>, <<"z">>, <<"z", "a">>, <<"b", "z", "a">>, <<"a", "b">>}

Ops(s) ==
  When(~Busy(s), {[op |-> "update", conf |-> c, stream |-> x] : c \in Confs, x \in When("stream" \in Fam, BOOLEAN) \cup {FALSE}})
  \cup {[op |-> "write", id |-> i, rec |-> FreshRec(s)] : i \in {j \in Dom(s.objs) : Cardinality(Recs(s.objs[j])) < MaxRecs}}
  \cup {[op |-> "open", id |-> i] : i \in {j \in Dom(s.objs) : s.objs[j].use = "no"}}
  \cup {[op |-> "read", id |-> i] : i \in {j \in Dom(s.objs) : s.objs[j].use = "open"}}
  \cup {[op |-> "ack", id |-> i] : i \in {j \in Of(s, "c") : s.objs[j].use = "mid"}}
  \cup {[op |-> "close", id |-> i] : i \in {j \in Of(s, "t") : s.objs[j].use = "open"}}
  \cup When("flush" \in Fam, {[op |-> "flush", q |-> q, ids |-> f] : q \in {"q1", "q2"} \ Qs(s),
              f \in {g \in FlushSets : g = <<>> => Cardinality(Of(s, "c") \cap In(s)) <= 1}})
  \cup {[op |-> "letgo", id |-> i] : i \in {j \in Dom(s.objs) : s.objs[j].own = "held"}}
  \cup When("restart" \in Fam /\ ~Busy(s), {[op |-> "restart"]})
  \cup When("restart" \in Fam, {[op |-> "corrupt", id |-> i] : i \in {j \in Dom(s.disk) : ~s.disk[j].bad}})

-----------------------------------------------------------------------------
Inv(s) ==
  /\ \A i \in Dom(s.objs) : A!Inv(s.objs[i].a)
  \* a request waits only for a buffer that has no room on disk for what is in memory
  /\ s.fl # <<>> => s.cur # "none"
  /\ s.cur # "none" => s.objs[s.cur].a.cop = "write" /\ s.objs[s.cur].own = "in"
  /\ Dom(s.objs) \cap Dom(s.disk) = {}
  /\ ~s.c.hold => In(s) = Dom(s.objs)

StepOk(s, op, o) ==
  /\ op.op = "update" /\ o.res.r = "ok" =>
        /\ In(o.s) = Ids(op.conf) /\ o.s.stream = op.stream
        /\ o.res.rem = In(s) \ Ids(op.conf)
        /\ {o.res.add[i].id : i \in DOMAIN o.res.add} = Ids(op.conf) \ In(s)
        /\ \A i \in In(s) \cap Ids(op.conf) : o.s.objs[i] = s.objs[i]
  /\ op.op = "update" /\ o.res.r # "ok" => o.s.objs = s.objs /\ o.s.stream = s.stream /\ Dom(s.disk) \subseteq Dom(o.s.disk)
        /\ \A i \in Dom(s.disk) : ~s.disk[i].bad => o.s.disk[i].n.rd = s.disk[i].n.rd
  \* a removed buffer and its file go when the last user lets go
  /\ op.op = "letgo" => op.id \notin o.res.files
  /\ op.op = "flush" /\ o.res.r = "ok" => \A i \in DOMAIN op.ids : op.ids[i] \in In(s) => o.s.objs[op.ids[i]].a.v.rd = <<>>
=============================================================================

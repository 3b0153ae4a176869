----------------------------- MODULE ApiStream -----------------------------
(* C19 (uploads over the stream), C20 (the stream), C21 (kill switch): bd-api api.rs.
   Times are in ms.  cfg.rt: number of the runtime configuration cached before the first launch (0: none). *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Cfgs, Rts, Pings, Waits, Keys, Clocks, Kinds, Ids, MaxUps, MaxLaunch, Fam

Default == [init |-> 500, max |-> 300000, gen |-> 0, una |-> 86400000, comp |-> TRUE, v |-> ""]
RtOf(i) == IF i = 0 THEN Default ELSE Rts[i]
Grace == 15000
Minute == 60000
Tol == 2
NoFile == [k |-> "none", until |-> 0, key |-> ""]

(* ph: "new", "hs" (stream open, no handshake yet), "up", "back" (waits to reconnect), "killed", "dead" (ended by an error), "down";
   now: of the process; wall: of the clock; disc: when it first was without a stream (-1: it is not); q: reported quality;
   pol: backoff policy in use; bi: interval of the next delay; b0, bd: the current delay's beginning and interval;
   upat: time of the handshake; ping, dl: interval and time of the next ping; why: how the last stream ended;
   queue: uploads not taken yet; out: sent, not answered; ups: how many there were; rt: runtime configuration in effect,
   chg: the backoff's changed; cache: the persisted one; rc: launches since the cache was known to be good; kf: the kill file; n: launches;
   net: "ok", or what fails *)
S0(c) == [ph |-> "new", now |-> 0, wall |-> 100000, disc |-> -1, q |-> "unknown", pol |-> [init |-> 0, max |-> 0], bi |-> 0, b0 |-> 0, bd |-> 0,
          upat |-> 0, ping |-> -1, dl |-> -1, why |-> "", queue |-> <<>>, out |-> <<>>, ups |-> 0, rt |-> 0, chg |-> FALSE,
          cache |-> c.rt, rc |-> 0, kf |-> NoFile, key |-> "", n |-> 0, net |-> "ok"]

Class(k) == IF k \in {"intent", "sintent"} THEN "intent" ELSE "upload"
R0 == [sent |-> <<>>, done |-> {}, trig |-> <<>>, starts |-> <<>>]
K(s) == [s |-> s, r |-> R0]
Fin(k) == [s |-> k.s, res |-> k.r @@ [end |-> CASE k.s.ph = "dead" -> "err" [] k.s.ph \in {"down", "new"} -> "ok" [] OTHER -> "run",
                                      q |-> k.s.q, kf |-> k.s.kf.k # "none"]]
Gone(k, xs) == [k EXCEPT !.r.done = @ \cup {[n |-> xs[i].n, r |-> "gone"] : i \in {j \in DOMAIN xs : ~xs[j].ab}}]
LoseOut(k) == [Gone(k, k.s.out) EXCEPT !.s.out = <<>>]
End(k, ph) == [Gone(LoseOut(k), k.s.queue) EXCEPT !.s.queue = <<>>, !.s.ph = ph, !.s.dl = -1]
Say(k, m) == IF k.s.ph = "dead" THEN k ELSE IF k.s.net = "nosend" THEN End(k, "dead") ELSE [k EXCEPT !.r.sent = Append(@, m)]

Policy(i) == [init |-> RtOf(i).init, max |-> RtOf(i).max]

\* the next attempt to connect (what was sent on the previous stream is cancelled now at the latest); a set: at exactly the grace period either will do
Attempt(k0, kill) ==
  LET k == LoseOut(k0)
      s == k.s
      d == IF s.disc < 0 THEN s.now ELSE s.disc
      qs == (IF s.now - d > Grace THEN {"offline"} ELSE {"unknown"}) \cup (IF s.now - d \in Grace - Tol .. Grace + Tol THEN {"offline", "unknown"} ELSE {})
      Go(q) ==
        LET t == [s EXCEPT !.disc = d, !.q = q, !.dl = -1, !.ping = -1]
            u == [t EXCEPT !.ph = "hs", !.pol = IF s.chg THEN Policy(s.rt) ELSE @, !.bi = IF s.chg THEN RtOf(s.rt).init ELSE @, !.chg = FALSE, !.why = ""]
            st == [key |-> s.key, comp |-> RtOf(s.rt).comp] IN
        IF kill THEN [k EXCEPT !.s = [t EXCEPT !.ph = "killed"]]
        ELSE IF s.net = "nostart" THEN End([k EXCEPT !.s = [u EXCEPT !.why = s.why]], "dead")
        ELSE Say([s |-> u, r |-> [k.r EXCEPT !.starts = Append(@, st)]], [k |-> "hs", id |-> s.why, v |-> RtOf(s.rt).v])
  IN {Go(q) : q \in qs}

Delay(s) == [s EXCEPT !.ph = "back", !.dl = -1, !.b0 = s.now, !.bd = s.bi, !.bi = IF 3 * s.bi >= 2 * s.pol.max THEN s.pol.max ELSE (3 * s.bi) \div 2]

\* an upload is taken from the queue: one outstanding with the same identifier is given up
Take(k, u) ==
  LET Same(x) == Class(x.k) = Class(u.k) /\ x.id = u.id
      Other(x) == ~Same(x)
      old == SelectSeq(k.s.out, Same)
      l == [Gone(k, old) EXCEPT !.s.out = Append(SelectSeq(@, Other), u)] IN
  Say(l, [k |-> u.k, id |-> u.id, v |-> ""])
RECURSIVE Drain(_)
Drain(k) == IF k.s.queue = <<>> \/ k.s.ph # "up" THEN k
            ELSE Drain(Take([k EXCEPT !.s.queue = Tail(@)], k.s.queue[1]))

Resched(s) == [s EXCEPT !.dl = IF s.ping >= 0 THEN s.now + s.ping ELSE -1]
Answer(k, class, id, r) ==
  LET Hit(x) == Class(x.k) = class /\ x.id = id
      Rest(x) == ~Hit(x)
      hit == SelectSeq(k.s.out, Hit) IN
  IF hit = <<>> THEN End(k, "dead")
  ELSE [k EXCEPT !.s.out = SelectSeq(@, Rest), !.r.done = @ \cup (IF hit[1].ab THEN {} ELSE {[n |-> hit[1].n, r |-> r]})]

\* a message other than the first
Feed(k, m) ==
  IF k.s.ph = "dead" THEN k
  ELSE CASE m.k = "hs" -> End(k, "dead")
         [] m.k = "pong" -> [k EXCEPT !.s = Resched(k.s)]
         [] m.k \in {"bye", "conf"} -> k
         [] m.k = "flush" -> [k EXCEPT !.r.trig = Append(@, m.ids)]
         [] m.k = "rt" -> LET a == RtOf(k.s.rt)
                              b == RtOf(m.i) IN
                          Say([k EXCEPT !.s.rt = m.i, !.s.cache = m.i, !.s.rc = 0, !.s.chg = @ \/ a.init # b.init \/ a.max # b.max],
                              [k |-> "rtack", id |-> "", v |-> b.v])
         [] m.k = "ack" -> Answer(k, "upload", m.id, m.r)
         [] OTHER -> Answer(k, "intent", m.id, IF m.r = "yes" THEN "yes" ELSE "drop")
RECURSIVE FeedAll(_, _)
FeedAll(k, ms) == IF ms = <<>> THEN k ELSE FeedAll(Feed(k, ms[1]), Tail(ms))

\* one piece of data with the messages ms
Chunk(k, ms) ==
  LET s == k.s
      m == ms[1] IN
  IF ms = <<>> THEN {k}
  ELSE IF s.ph = "up" THEN {FeedAll(k, ms)}
  ELSE IF s.ph # "hs" THEN {k}
  ELSE CASE m.k = "hs" ->
              LET l == FeedAll([k EXCEPT !.s = Resched([s EXCEPT !.ping = m.ping])], Tail(ms)) IN
              {IF l.s.ph = "dead" THEN l
               ELSE Drain([l EXCEPT !.s.ph = "up", !.s.q = "online", !.s.disc = -1, !.s.upat = s.now, !.s.rc = 0])}
         [] m.k = "bye" /\ m.st = 16 ->
              Attempt([k EXCEPT !.s.kf = [k |-> "ok", until |-> s.wall + RtOf(s.rt).una, key |-> s.key]], TRUE)
         [] m.k = "bye" -> {[k EXCEPT !.s = [Delay(s) EXCEPT !.why = "error shutdown: " \o m.msg]]}
         [] OTHER -> {End(k, "dead")}

Closed(k, why) ==
  LET s == [k.s EXCEPT !.why = why]
      l == [k EXCEPT !.s = s]
      b == [l EXCEPT !.s = Delay(s)]
      lived == s.now - s.upat
      Reset == Attempt([l EXCEPT !.s.bi = s.pol.init], FALSE)
      Back == {b, LoseOut(b)} IN
  IF s.ph = "hs" THEN {b}
  ELSE (IF lived > Minute - Tol THEN Reset ELSE {}) \cup (IF lived <= Minute + Tol THEN Back ELSE {})

Launch(s, op) ==
  LET w == s.wall + op.dt
      rt == s.cache
      kf == s.kf
      on == kf.k = "ok" /\ kf.until > w /\ kf.key = op.key
      gen == RtOf(rt).gen
      write == kf.k # "ok" /\ gen # 0
      f == IF on THEN kf ELSE IF kf.k = "ok" THEN NoFile ELSE IF write THEN [k |-> "ok", until |-> w + gen, key |-> op.key] ELSE kf
      t == [s EXCEPT !.ph = "hs", !.wall = w, !.disc = -1, !.q = "unknown", !.pol = Policy(rt), !.bi = RtOf(rt).init, !.why = "", !.rt = rt,
                     !.chg = FALSE, !.rc = IF rt = 0 THEN 0 ELSE @ + 1, !.kf = f, !.key = op.key, !.n = @ + 1] IN
  Attempt(K(t), on \/ write)

Running(s) == s.ph \in {"hs", "up", "back", "killed"}
Open(s) == s.ph \in {"hs", "up"}

Wait(s, op) ==
  LET t == [s EXCEPT !.now = @ + op.d]
      lo == s.b0 + s.bd \div 2 - Tol
      hi == s.b0 + (3 * s.bd) \div 2 + Tol IN
  IF s.ph = "back"
  THEN (IF op.ev /\ op.d <= op.t /\ t.now >= lo /\ t.now <= hi THEN Attempt(K(t), FALSE) ELSE {})
       \cup (IF ~op.ev /\ t.now <= hi THEN {K(t)} ELSE {})
  ELSE IF s.ph = "up" /\ s.dl >= 0
  THEN (IF op.ev /\ op.d <= op.t /\ t.now \in s.dl - Tol .. s.dl + Tol THEN {Say(K([t EXCEPT !.dl = -1]), [k |-> "ping", id |-> "", v |-> ""])} ELSE {})
       \cup (IF ~op.ev /\ t.now <= s.dl + Tol THEN {K(t)} ELSE {})
  ELSE IF op.ev THEN {} ELSE {K(t)}

Recv(s, op) ==
  LET n == Len(op.ms) IN
  IF op.cut = 2 /\ n > 1 THEN UNION {Chunk(k, <<op.ms[n]>>) : k \in Chunk(K(s), SubSeq(op.ms, 1, n - 1))}
  ELSE Chunk(K(s), op.ms)

Ks(s, op) ==
  CASE op.op = "launch" -> Launch(s, op)
    [] op.op = "wait" -> Wait(s, op)
    [] op.op = "recv" -> Recv(s, op)
    [] op.op = "close" -> Closed(K(s), op.why)
    [] op.op = "upload" ->
         LET u == [n |-> s.ups + 1, k |-> op.k, id |-> op.id, ab |-> FALSE]
             k == K([s EXCEPT !.ups = @ + 1]) IN
         {IF Running(s) THEN Drain([k EXCEPT !.s.queue = Append(@, u)]) ELSE Gone(k, <<u>>)}
    [] op.op = "leave" ->
         LET L(q) == [i \in DOMAIN q |-> IF q[i].n = op.n THEN [q[i] EXCEPT !.ab = TRUE] ELSE q[i]] IN
         {K([s EXCEPT !.out = L(@), !.queue = L(@)])}
    [] op.op = "shutdown" -> {IF Running(s) THEN End(K(s), "down") ELSE K(s)}
    [] op.op = "damage" -> {K([s EXCEPT !.kf = [k |-> "bad", until |-> 0, key |-> ""]])}
    [] op.op = "net" -> {K([s EXCEPT !.net = op.w])}
Outcomes(s, op) == {Fin(k) : k \in Ks(s, op)}

--------------------------------------------------------------------------
WaitOps(s) ==
  IF ~Running(s) THEN {}
  ELSE UNION {LET hi == s.b0 + (3 * s.bd) \div 2 + Tol
                  lo == s.b0 + s.bd \div 2 - Tol
                  W(d, ev) == {[op |-> "wait", t |-> t, d |-> d, ev |-> ev]} IN
              IF s.ph = "back"
              THEN IF s.now + t > hi THEN W(IF s.b0 + s.bd > s.now THEN s.b0 + s.bd - s.now ELSE 1, TRUE)
                   ELSE IF s.now + t < lo THEN W(t, FALSE) ELSE {}
              ELSE IF s.ph = "up" /\ s.dl >= 0
              THEN IF s.now + t > s.dl + Tol THEN W(s.dl - s.now, TRUE) ELSE IF s.now + t < s.dl - Tol THEN W(t, FALSE) ELSE {}
              ELSE W(t, FALSE) : t \in Waits}
Hs == {[k |-> "hs", ping |-> p] : p \in Pings}
Bye(st) == [k |-> "bye", st |-> st, msg |-> "m"]
RtMs == IF "rt" \in Fam THEN {[k |-> "rt", i |-> i] : i \in DOMAIN Rts} ELSE {}
AckMs(s) == IF "ups" \notin Fam THEN {}
            ELSE LET ids == {s.out[i].id : i \in DOMAIN s.out} \cup (IF "bad" \in Fam THEN {"zz"} \cup Ids ELSE {}) IN
                 {[k |-> "ack", of |-> x, id |-> id, r |-> r] : x \in Kinds \ {"intent", "sintent"}, id \in ids, r \in {"ok", "fail"}}
                   \cup {[k |-> x, id |-> id, r |-> r] : x \in Kinds \cap {"intent", "sintent"}, id \in ids, r \in {"yes", "drop", "none"}}
Known(s, m) == CASE m.k = "ack" -> \E i \in DOMAIN s.out : Class(s.out[i].k) = "upload" /\ s.out[i].id = m.id
                 [] OTHER -> \E i \in DOMAIN s.out : Class(s.out[i].k) = "intent" /\ s.out[i].id = m.id
Acks(s) == {m \in AckMs(s) : "bad" \in Fam \/ Known(s, m)}
Plain == {[k |-> "pong"]} \cup (IF "more" \in Fam THEN {[k |-> "conf"], Bye(3), [k |-> "flush", ids |-> <<"b1">>], [k |-> "flush", ids |-> <<>>]} ELSE {})
Datas(s) ==
  IF s.ph = "up"
  THEN {<<m>> : m \in Acks(s) \cup RtMs \cup Plain \cup (IF "bad" \in Fam THEN Hs ELSE {})}
       \cup (IF "more" \in Fam THEN {<<a, b>> : a \in Acks(s) \cup RtMs, b \in Plain \cup Acks(s)} ELSE {})
  ELSE {<<m>> : m \in Hs \cup (IF "bye" \in Fam THEN {Bye(3)} ELSE {}) \cup (IF "kill" \in Fam THEN {Bye(16)} ELSE {})}
       \cup {<<h, m>> : h \in Hs, m \in RtMs \cup (IF "more" \in Fam THEN Plain ELSE {})}
       \cup (IF "bad" \in Fam THEN {<<m>> : m \in Plain \cup Acks(s)} \cup {<<h, m>> : h \in Hs, m \in Acks(s) \cup Hs} ELSE {})
Ops(s) ==
  (IF ~Running(s) /\ s.n < MaxLaunch /\ s.rc < 4
   THEN {[op |-> "launch", key |-> k, dt |-> d] : k \in IF s.n = 0 THEN {CHOOSE k \in Keys : TRUE} ELSE Keys, d \in IF s.n = 0 THEN {0} ELSE Clocks} ELSE {})
    \cup WaitOps(s)
    \cup (IF Open(s) THEN {[op |-> "recv", ms |-> ms, cut |-> c] : ms \in Datas(s), c \in IF "cut" \in Fam THEN {0, 1, 2} ELSE {0}}
                          \cup {[op |-> "close", why |-> w] : w \in IF "more" \in Fam THEN {"c1", "c2"} ELSE {"c1"}} ELSE {})
    \cup (IF "ups" \in Fam /\ s.n > 0 /\ s.ups < MaxUps /\ (Running(s) \/ "bad" \in Fam)
          THEN {[op |-> "upload", k |-> k, id |-> i] : k \in Kinds, i \in Ids} ELSE {})
    \cup (IF "ups" \in Fam THEN {[op |-> "leave", n |-> s.out[i].n] : i \in {j \in DOMAIN s.out : ~s.out[j].ab}}
                                 \cup {[op |-> "leave", n |-> s.queue[i].n] : i \in {j \in DOMAIN s.queue : ~s.queue[j].ab}} ELSE {})
    \cup (IF Running(s) THEN {[op |-> "shutdown"]} ELSE {})
    \cup (IF "kill" \in Fam /\ s.kf.k = "ok" THEN {[op |-> "damage", w |-> w] : w \in {"cut", "junk", "empty", "flip"}} ELSE {})
    \cup (IF "net" \in Fam /\ s.ph \in {"back", "up"} THEN {[op |-> "net", w |-> w] : w \in {"ok", "nostart", "nosend"} \ {s.net}} ELSE {})

Inv(s) ==
  /\ s.q = "online" => s.ph \in {"up", "back", "dead", "down"}
  /\ (s.q = "offline" /\ Running(s)) => (s.disc >= 0 /\ s.now - s.disc >= Grace - Tol)
  /\ s.out # <<>> => s.ph \in {"up", "back"}
  /\ \A i, j \in DOMAIN s.out : i # j => ~(Class(s.out[i].k) = Class(s.out[j].k) /\ s.out[i].id = s.out[j].id)
  /\ s.ph = "up" => s.queue = <<>>
  /\ (s.ph = "up" /\ s.dl >= 0) => s.dl >= s.now - Tol
Held(s) == {s.out[i].n : i \in DOMAIN s.out} \cup {s.queue[i].n : i \in DOMAIN s.queue}
StepOk(s, op, o) ==
  LET t == o.s
      r == o.res
      ns == {d.n : d \in r.done} IN
  /\ Len(r.starts) <= 1
  \* every stream begins with the handshake and, until it is answered, nothing else is sent
  /\ r.starts # <<>> => (r.sent # <<>> => r.sent[1].k = "hs")
  /\ t.ph = "hs" => r.sent = <<>> \/ (r.starts # <<>> /\ Len(r.sent) = 1) \/ op.op = "recv"
  /\ (s.ph \in {"back", "killed", "dead", "down"} /\ op.op # "launch" /\ t.ph # "hs") => r.sent = <<>>
  \* each upload is resolved at most once and none is left behind
  /\ Cardinality(ns) = Cardinality(r.done)
  /\ ns \subseteq Held(s) \cup {t.ups}
  /\ ns \cap Held(t) = {}
  /\ t.ph \in {"dead", "down"} => Held(t) = {}
  /\ (t.ph = "hs" \/ t.ph = "killed") => t.out = <<>>
  \* a killed client starts nothing; an unreadable record kills nothing; an expired one is removed
  /\ (op.op = "launch" /\ s.kf.k = "ok" /\ s.kf.until > s.wall + op.dt /\ s.kf.key = op.key) => r.starts = <<>>
  /\ (op.op = "launch" /\ s.kf.k = "ok" /\ ~(s.kf.until > s.wall + op.dt /\ s.kf.key = op.key)) => ~r.kf
  /\ (op.op = "launch" /\ s.kf.k = "bad" /\ RtOf(s.cache).gen = 0 /\ s.net # "nostart") => r.starts # <<>>
  /\ s.ph = "killed" => r.starts = <<>> \/ op.op = "launch"
=============================================================================

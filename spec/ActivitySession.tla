-------------------------- MODULE ActivitySession --------------------------
(* C02: the activity-based session strategy (bd-session/src/activity_based.rs) over a key-value store
   with faults, crashes at the durable write, restarts and a clock that may also move backwards.

   Identifiers are numbers in order of first appearance, 0 stands for none; on disk the identifier -1
   is a value that cannot be decoded.  Times are milliseconds. *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Cfgs,      \* [thr]
          Ticks, Faults,
          MaxWrite,  \* throttling interval of the durable activity
          Known      \* identifiers of a recorded concurrent execution ({}: number them in order)

NoDisk == [id |-> 0, last |-> 0]
Junk == [id |-> -1, last |-> 0]
NoMem == [id |-> 0, prev |-> 0, last |-> 0, lw |-> -1]   \* lw = -1: no activity written by this process
T0 == 10000000

S0(cfg) == [thr |-> cfg.thr, now |-> T0, mem |-> NoMem, disk |-> NoDisk, used |-> {}, boot |-> 0, faulty |-> FALSE]

Fresh(s) == IF Known = {} THEN {Cardinality(s.used) + 1} ELSE Known \ s.used
Fresh2(s) == IF Known = {} THEN {<<Cardinality(s.used) + 1, Cardinality(s.used) + 2>>}
             ELSE {<<x, y>> \in (Known \ s.used) \X (Known \ s.used) : x # y}

Get(s, f) ==
  IF f = "r" THEN [v |-> NoDisk, disk |-> NoDisk]
  ELSE IF f = "d" THEN [v |-> NoDisk, disk |-> s.disk]
  ELSE IF s.disk = Junk THEN [v |-> NoDisk, disk |-> NoDisk]
  ELSE [v |-> s.disk, disk |-> s.disk]

Put(disk, m, f) == IF f = "w" THEN disk ELSE [id |-> m.id, last |-> m.last]
Fault(s, op) == s.faulty \/ op.fault # "none"
Res(r, cbs, d) == [ret |-> r, cbs |-> cbs, disk |-> d]

\* First use: what is durable, else a new session (announced); then the ordinary rules.
Loaded(s, f) ==
  IF s.mem.id # 0 THEN {[m |-> s.mem, cbs |-> 0, disk |-> s.disk, used |-> s.used]}
  ELSE LET g == Get(s, f) IN
    IF g.v.id # 0
      THEN {[m |-> [id |-> g.v.id, prev |-> g.v.id, last |-> g.v.last, lw |-> -1], cbs |-> 0, disk |-> g.disk, used |-> s.used]}
      ELSE {[m |-> [id |-> a, prev |-> 0, last |-> s.now, lw |-> -1], cbs |-> 1, disk |-> g.disk, used |-> s.used \cup {a}] : a \in Fresh(s)}

Over(s, m) == s.now < m.last \/ s.now - m.last > s.thr

SessionId(s, op) ==
  UNION {
    IF Over(s, x.m)
      THEN {LET m == [x.m EXCEPT !.id = a, !.last = s.now, !.lw = s.now]
                d == Put(x.disk, m, op.fault) IN
            [s |-> [s EXCEPT !.mem = m, !.disk = d, !.used = x.used \cup {a}, !.faulty = Fault(s, op)], res |-> Res(a, x.cbs + 1, d)] :
              a \in Fresh([s EXCEPT !.used = x.used])}
      ELSE LET write == x.m.lw = -1 \/ s.now - x.m.lw > MaxWrite
               m == [x.m EXCEPT !.last = s.now, !.lw = IF write THEN s.now ELSE @]
               d == IF write THEN Put(x.disk, m, op.fault) ELSE x.disk IN
           {[s |-> [s EXCEPT !.mem = m, !.disk = d, !.used = x.used, !.faulty = Fault(s, op)], res |-> Res(m.id, x.cbs, d)]} :
    x \in Loaded(s, op.fault)}

Start(s, op) ==
  LET g == IF s.mem.id # 0 THEN [v |-> [id |-> s.mem.prev], disk |-> s.disk] ELSE Get(s, op.fault) IN
  {LET m == [id |-> a, prev |-> g.v.id, last |-> s.now, lw |-> s.now]
       d == Put(g.disk, m, op.fault) IN
   [s |-> [s EXCEPT !.mem = m, !.disk = d, !.used = @ \cup {a}, !.faulty = Fault(s, op)], res |-> Res(a, 0, d)] : a \in Fresh(s)}

Prev(s, op) ==
  IF s.mem.id # 0 THEN {[s |-> s, res |-> Res(s.mem.prev, 0, s.disk)]}
  ELSE LET g == Get(s, op.fault) IN
       {[s |-> [s EXCEPT !.disk = g.disk, !.faulty = Fault(s, op)], res |-> Res(g.v.id, 0, g.disk)]}

Flush(s, op) ==
  LET d == IF s.mem.id = 0 THEN s.disk ELSE Put(s.disk, s.mem, op.fault) IN
  {[s |-> [s EXCEPT !.disk = d, !.faulty = Fault(s, op)], res |-> Res(0, 0, d)]}

Boot(s, d) == [s EXCEPT !.mem = NoMem, !.disk = d, !.boot = IF d = Junk THEN 0 ELSE d.id, !.faulty = FALSE]

\* The process dies at the first durable write of sid, start or flush, before or after it took effect.
Crash(s, op) ==
  LET os == CASE op.what = "sid" -> SessionId(s, [fault |-> "none"])
              [] op.what = "start" -> Start(s, [fault |-> "none"])
              [] op.what = "flush" -> Flush(s, [fault |-> "none"])
      \* reading may already have removed an undecodable entry
      read == IF s.mem.id # 0 \/ op.what = "flush" THEN s.disk ELSE Get(s, "none").disk IN
  {LET d == IF op.at = "after" \/ o.s.disk = s.disk THEN o.s.disk ELSE read
       \* (an identifier that was neither announced nor made durable has never been seen)
       used == IF o.s.disk.id = d.id \/ (op.what = "sid" /\ s.mem.id = 0 /\ Get(s, "none").v.id = 0) THEN o.s.used ELSE s.used IN
   [s |-> Boot([s EXCEPT !.used = used], d), res |-> Res(0, 0, d)] : o \in os}

Outcomes(s, op) ==
  CASE op.op = "sid" -> SessionId(s, op)
    [] op.op = "start" -> Start(s, op)
    [] op.op = "prev" -> Prev(s, op)
    [] op.op = "flush" -> Flush(s, op)
    [] op.op = "tick" -> {[s |-> [s EXCEPT !.now = @ + op.d], res |-> Res(0, 0, s.disk)]}
    [] op.op = "crash" -> Crash(s, op)
    [] op.op = "restart" -> {[s |-> Boot(s, s.disk), res |-> Res(0, 0, s.disk)]}
    [] op.op = "corrupt" -> {[s |-> [s EXCEPT !.disk = Junk, !.boot = IF s.mem.id = 0 THEN 0 ELSE @], res |-> Res(0, 0, Junk)]}
    [] op.op = "peek" -> {[s |-> s, res |-> Res(0, 0, s.disk)]}

Ops(s) ==
  {[op |-> o, fault |-> f] : o \in {"sid", "start", "prev", "flush"}, f \in Faults}
  \cup {[op |-> "crash", what |-> w, at |-> a] : w \in {"sid", "start", "flush"}, a \in {"before", "after"}}
  \cup {[op |-> "tick", d |-> t] : t \in Ticks}
  \cup {[op |-> "restart"], [op |-> "corrupt"]}

-----------------------------------------------------------------------------
Inv(s) == /\ s.mem.id # 0 => s.mem.id \in s.used
          /\ s.mem.id # 0 /\ ~s.faulty => s.mem.prev = s.boot

StepOk(s, op, o) ==
  /\ op.op = "sid" => o.res.ret = o.s.mem.id /\ o.s.mem.id # 0 /\ o.s.mem.last = s.now
  \* the id changes if and only if ...
  /\ op.op = "sid" /\ s.mem.id # 0 =>
       ((o.s.mem.id # s.mem.id) <=> (s.now - s.mem.last > s.thr \/ s.now < s.mem.last))
  \* ... also across a restart, counted from the last durable activity
  /\ op.op = "sid" /\ s.mem.id = 0 /\ op.fault \in {"none", "w"} /\ s.disk.id > 0 =>
       ((o.s.mem.id # s.disk.id) <=> (s.now - s.disk.last > s.thr \/ s.now < s.disk.last))
  /\ op.op \in {"prev", "flush", "tick", "peek"} => o.s.mem = s.mem
  /\ op.op = "start" => o.s.mem.id \notin s.used /\ o.s.mem.id # 0
  \* announced exactly once per automatically generated id
  /\ op.op = "sid" => o.res.cbs = Cardinality(o.s.used \ s.used)
  /\ op.op # "sid" => o.res.cbs = 0
  \* durable: the id when it is handed out, the activity with a bounded lag
  /\ op.op \in {"sid", "start"} /\ ~o.s.faulty /\ s.disk # Junk => o.s.disk.id = o.s.mem.id /\ o.s.mem.last - o.s.disk.last <= MaxWrite
  /\ op.op = "flush" /\ op.fault # "w" /\ s.mem.id # 0 => o.s.disk = [id |-> s.mem.id, last |-> s.mem.last]
  /\ op.op = "prev" /\ ~s.faulty /\ op.fault = "none" => o.res.ret = s.boot
  /\ op.op \in {"sid", "start", "prev"} /\ s.mem.id # 0 => o.s.mem.prev = s.mem.prev
=============================================================================

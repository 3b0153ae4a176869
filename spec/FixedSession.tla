---------------------------- MODULE FixedSession ----------------------------
(* C01: the fixed session strategy (bd-session/src/fixed.rs) over a key-value store, its application
   callback, storage faults, crashes at the durable write, and process restarts.

   Identifiers are numbers in order of first appearance; 0 stands for none.  On disk, -1 is a value
   that cannot be decoded. *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Cfgs,
          Cbs,       \* what the callback does: ok, dup, err, rsid, rstart
          Faults,    \* none, r (reads fail), w (writes fail), d (reads and deletes fail)
          Known      \* identifiers of a recorded concurrent execution ({}: number them in order)

None == 0
Junk == -1

S0(cfg) == [cur |-> None, prev |-> None, disk |-> None, used |-> {}, last |-> None,
            \* ghosts: what was durable when the process started, and whether storage misbehaved since
            boot |-> None, faulty |-> FALSE]

Valid(d) == IF d = Junk THEN None ELSE d
Fresh(s) == IF Known = {} THEN {Cardinality(s.used) + 1} ELSE Known \ s.used

\* Store.get under a fault: what it returns and what it leaves on disk.
Get(s, f) ==
  IF f = "r" THEN [v |-> None, disk |-> None]
  ELSE IF f = "d" THEN [v |-> None, disk |-> s.disk]
  ELSE IF s.disk = Junk THEN [v |-> None, disk |-> None]
  ELSE [v |-> s.disk, disk |-> s.disk]

Put(disk, id, f) == IF f = "w" THEN disk ELSE id

\* One identifier: the callback's, or a fresh one when it fails.  A call back into the strategy from
\* the callback gets a fresh identifier of its own (rsid) or is refused (rstart).
Gen(s, cb) ==
  IF cb = "dup" /\ s.last # None
    THEN {[id |-> s.last, inner |-> None, src |-> "cb", used |-> s.used, last |-> s.last]}
  ELSE IF cb = "rsid"
    THEN {[id |-> b, inner |-> a, src |-> "cb", used |-> s.used \cup {a, b}, last |-> b] :
            <<a, b>> \in {<<x, y>> \in Fresh(s) \X (IF Known = {} THEN {Cardinality(s.used) + 2} ELSE Known \ s.used) : x # y}}
  ELSE {[id |-> a, inner |-> None, src |-> IF cb = "err" THEN "uuid" ELSE "cb", used |-> s.used \cup {a},
         last |-> IF cb = "err" THEN s.last ELSE a] : a \in Fresh(s)}

Fault(s, op) == s.faulty \/ op.fault # "none"
Res(r, i, src, cbs, d) == [ret |-> r, inner |-> i, src |-> src, cbs |-> cbs, disk |-> d]

SessionId(s, op) ==
  IF s.cur # None THEN {[s |-> s, res |-> Res(s.cur, None, "-", 0, s.disk)]}
  ELSE LET g == Get(s, op.fault) IN
    {LET d == Put(g.disk, x.id, op.fault) IN
     [s |-> [s EXCEPT !.cur = x.id, !.prev = g.v, !.disk = d, !.used = x.used, !.last = x.last, !.faulty = Fault(s, op)],
      res |-> Res(x.id, x.inner, x.src, 1, d)] : x \in Gen(s, op.cb)}

Start(s, op) ==
  LET g == IF s.cur # None THEN [v |-> s.prev, disk |-> s.disk] ELSE Get(s, op.fault) IN
    {LET d == Put(g.disk, x.id, op.fault) IN
     [s |-> [s EXCEPT !.cur = x.id, !.prev = g.v, !.disk = d, !.used = x.used, !.last = x.last, !.faulty = Fault(s, op)],
      res |-> Res(x.id, x.inner, x.src, 1, d)] : x \in Gen(s, op.cb)}

Prev(s, op) ==
  IF s.cur # None THEN {[s |-> s, res |-> Res(s.prev, None, "-", 0, s.disk)]}
  ELSE LET g == Get(s, op.fault) IN
    {[s |-> [s EXCEPT !.disk = g.disk, !.faulty = Fault(s, op)], res |-> Res(g.v, None, "-", 0, g.disk)]}

Boot(s, disk) == [s EXCEPT !.cur = None, !.prev = None, !.disk = disk, !.boot = Valid(disk), !.faulty = FALSE]

\* The process dies at the durable write of sid or start, before or after it took effect.
Crash(s, op) ==
  IF op.what = "sid" /\ s.cur # None
    THEN {[s |-> Boot(s, s.disk), res |-> Res(None, None, "-", 0, s.disk)]}
  ELSE LET g == IF s.cur # None THEN [v |-> s.prev, disk |-> s.disk] ELSE Get(s, "none") IN
    {LET d == IF op.at = "after" THEN x.id ELSE g.disk IN
     [s |-> [Boot(s, d) EXCEPT !.used = x.used, !.last = x.last], res |-> Res(None, None, "cb", 1, d)] : x \in Gen(s, "ok")}

Outcomes(s, op) ==
  CASE op.op = "sid" -> SessionId(s, op)
    [] op.op = "start" -> Start(s, op)
    [] op.op = "prev" -> Prev(s, op)
    [] op.op = "crash" -> Crash(s, op)
    [] op.op = "restart" -> {[s |-> Boot(s, s.disk), res |-> Res(None, None, "-", 0, s.disk)]}
    [] op.op = "corrupt" -> {[s |-> [s EXCEPT !.disk = Junk, !.boot = IF s.cur = None THEN None ELSE @],
                              res |-> Res(None, None, "-", 0, Junk)]}
    [] op.op = "peek" -> {[s |-> s, res |-> Res(None, None, "-", 0, s.disk)]}

Ops(s) ==
  {[op |-> o, cb |-> c, fault |-> f] : o \in {"sid", "start"}, c \in Cbs, f \in Faults}
  \cup {[op |-> "prev", fault |-> f] : f \in Faults}
  \cup {[op |-> "crash", what |-> w, at |-> a] : w \in {"sid", "start"}, a \in {"before", "after"}}
  \cup {[op |-> "restart"], [op |-> "corrupt"]}

-----------------------------------------------------------------------------
Inv(s) == /\ s.cur # None => s.cur \in s.used
          /\ ~s.faulty /\ s.cur # None => s.prev = s.boot

StepOk(s, op, o) ==
  \* one stable current id; reading it never changes anything
  /\ op.op = "sid" /\ s.cur # None => o.res.ret = s.cur /\ o.s = s
  \* every later call sees exactly the new id, and it is durable once handed out
  /\ op.op \in {"sid", "start"} => o.s.cur # None /\ (op.fault # "w" /\ (s.cur = None \/ op.op = "start") => o.s.disk = o.s.cur)
  /\ op.op \in {"sid", "start"} => o.res.ret = o.s.cur
  \* the id is the callback's unless it failed; a re-entered call gets an id that is nobody's current id
  /\ op.op \in {"sid", "start"} /\ o.res.cbs = 1 => ((o.res.src = "uuid") <=> (op.cb = "err"))
  /\ o.res.inner # None => o.res.inner # o.s.cur /\ o.res.inner \notin s.used
  \* the previous id is the one durable when the process started, whatever happened since
  /\ op.op = "prev" /\ ~s.faulty /\ op.fault = "none" => o.res.ret = s.boot
  /\ op.op \in {"sid", "start", "prev"} /\ s.cur # None => o.s.prev = s.prev
=============================================================================

---------------------------- MODULE RuntimeConf ----------------------------
(* C24: runtime configuration, its watches and its cache (bd-runtime runtime.rs).
   Confs: sequence of [int, bool, dur, str, v]; -1: absent, -2: of another type (read as zero). *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Cfgs, Confs, Fam, MaxH

Tries == 5
Flags == {"int", "bool", "dur"}
DefaultOf(f) == CASE f = "int" -> 7 [] f = "bool" -> 1 [] f = "dur" -> 500 [] f = "str" -> 9
Val(i, f) == IF i = 0 THEN DefaultOf(f)
             ELSE LET x == CASE f = "int" -> Confs[i].int [] f = "bool" -> Confs[i].bool [] f = "dur" -> Confs[i].dur [] f = "str" -> Confs[i].str IN
                  IF x = -1 THEN DefaultOf(f) ELSE IF x = -2 THEN 0 ELSE x

(* snap: configuration in effect (0: none or an empty one); hs: watches; pb, rc: the cached configuration and the count of
   launches with it; safe: this process was healthy; loaded: it looked at the cache *)
S0(c) == [snap |-> 0, hs |-> <<>>, pb |-> [k |-> "none", i |-> 0], rc |-> [k |-> "none", n |-> 0], safe |-> FALSE, loaded |-> FALSE]

Apply(s, i) == [s EXCEPT !.snap = i, !.hs = [h \in DOMAIN @ |-> [@[h] EXCEPT !.chg = @ \/ Val(s.snap, s.hs[h].f) # Val(i, s.hs[h].f)]]]
SetRc(s, n) == IF s.rc.k = "dir" THEN s ELSE [s EXCEPT !.rc = [k |-> "n", n |-> n]]
SetPb(s, i) == IF s.pb.k = "dir" THEN s ELSE [s EXCEPT !.pb = [k |-> "ok", i |-> i]]
New(s) == [s EXCEPT !.snap = 0, !.hs = <<>>, !.safe = FALSE, !.loaded = FALSE]
Load(s) ==
  LET Discard == [s EXCEPT !.pb = [k |-> "none", i |-> 0], !.rc = [k |-> "none", n |-> 0], !.loaded = TRUE] IN
  IF s.pb.k \in {"none", "bad", "dir"} \/ s.rc.k # "n" \/ s.rc.n > Tries THEN Discard
  ELSE [SetRc(SetPb(Apply(s, s.pb.i), s.pb.i), s.rc.n + 1) EXCEPT !.loaded = TRUE]
RECURSIVE Crashes(_, _)
Crashes(s, n) == IF n = 0 THEN s ELSE Crashes(Load(New(s)), n - 1)

Res(s, r) == [s |-> s, res |-> [r |-> r, nonce |-> IF s.snap = 0 THEN "" ELSE Confs[s.snap].v,
                               get |-> <<Val(s.snap, "int"), Val(s.snap, "bool"), Val(s.snap, "dur"), Val(s.snap, "str")>>,
                               hs |-> [h \in DOMAIN s.hs |-> [v |-> Val(s.snap, s.hs[h].f), chg |-> s.hs[h].chg]]]]
Damaged(s, op) ==
  IF op.w = "rc"
  THEN [s EXCEPT !.rc = CASE op.how = "del" -> [k |-> "none", n |-> 0] [] op.how = "dir" -> [k |-> "dir", n |-> 0]
                          [] op.how = "num" -> [k |-> "n", n |-> op.x] [] OTHER -> [k |-> "bad", n |-> 0]]
  ELSE [s EXCEPT !.pb = CASE op.how = "del" -> [k |-> "none", i |-> 0] [] op.how = "dir" -> [k |-> "dir", i |-> 0]
                          [] op.how = "plain" -> [k |-> "ok", i |-> op.i]
                          \* what happens to parse as an empty configuration is one
                          [] OTHER -> IF op.raw THEN [k |-> "ok", i |-> 0] ELSE [k |-> "bad", i |-> 0]]
Outcomes(s, op) ==
  CASE op.op = "new" -> {Res(New(s), "ok")}
    [] op.op = "load" -> {Res(Load(s), "ok")}
    [] op.op = "crashes" -> {Res(Crashes(s, op.n), "ok")}
    [] op.op = "update" -> {Res(SetRc(SetPb(Apply(s, op.i), op.i), 0), "ok")}
    [] op.op = "half" -> {Res(New(SetPb(s, op.i)), "ok")}
    [] op.op = "safe" -> {Res(IF s.safe THEN s ELSE [SetRc(s, 0) EXCEPT !.safe = TRUE], "ok")}
    [] op.op = "reg" -> {Res([s EXCEPT !.hs = Append(@, [f |-> op.f, chg |-> FALSE])], "ok")}
    [] op.op = "odd" -> {Res(s, IF \E h \in DOMAIN s.hs : s.hs[h].f = "int" THEN "err" ELSE "ok")}
    [] op.op = "mark" -> {Res([s EXCEPT !.hs[op.h].chg = FALSE], ToString(Val(s.snap, s.hs[op.h].f)))}
    [] op.op = "await" -> {Res([s EXCEPT !.hs[op.h].chg = FALSE], IF s.hs[op.h].chg THEN "changed" ELSE "same")}
    [] op.op = "race" -> {Res(s, "0")}
    [] op.op = "damage" -> {Res(Damaged(s, op), "ok")}

D(w, how, x, i) == [op |-> "damage", w |-> w, how |-> how, x |-> x, i |-> i, raw |-> FALSE]
Ops(s) ==
  {[op |-> "new"]} \cup (IF s.loaded THEN {} ELSE {[op |-> "load"]})
  \cup {[op |-> "update", i |-> i] : i \in DOMAIN Confs} \cup {[op |-> "safe"]}
  \cup (IF "watch" \in Fam THEN (IF Len(s.hs) < MaxH THEN {[op |-> "reg", f |-> f] : f \in Flags} ELSE {})
                                \cup {[op |-> o, h |-> h] : o \in {"mark", "await"}, h \in DOMAIN s.hs}
                                \cup (IF \E h \in DOMAIN s.hs : s.hs[h].f = "int" THEN {[op |-> "odd"]} ELSE {}) ELSE {})
  \cup (IF "crash" \in Fam THEN {[op |-> "crashes", n |-> n] : n \in {1, 3, 5, 6}} \cup {[op |-> "half", i |-> i] : i \in DOMAIN Confs} ELSE {})
  \cup (IF "damage" \in Fam
        THEN (IF s.rc.k = "n" THEN {D("rc", h, 0, 0) : h \in {"del", "dir", "empty", "junk"}} \cup {D("rc", "num", x, 0) : x \in {4, 5, 6}} ELSE {})
             \cup (IF s.pb.k = "ok" /\ s.pb.i # 0
                   THEN {D("pb", h, 0, 0) : h \in {"del", "dir", "empty", "junk"}} \cup {D("pb", "cut", x, 0) : x \in {1, 2, 9, 20}}
                        \cup {D("pb", "flip", x, 0) : x \in {0, 1007, 2021, 4013, 7005}} \cup {D("pb", "plain", 0, i) : i \in DOMAIN Confs} ELSE {}) ELSE {})

Inv(s) == s.snap \in 0 .. Len(Confs)
StepOk(s, op, o) ==
  LET t == o.s IN
  \* a watch is notified if and only if its value changed
  /\ op.op \in {"update", "load"} => \A h \in DOMAIN s.hs : t.hs[h].chg = (s.hs[h].chg \/ o.res.hs[h].v # Val(s.snap, s.hs[h].f))
  \* a configuration that never got healthy is tried a bounded number of times
  /\ op.op = "load" => (t.snap # s.snap => s.rc.k = "n" /\ s.rc.n <= Tries /\ t.rc.n = s.rc.n + 1)
  /\ (op.op = "crashes" /\ op.n > Tries + 1) => t.snap = 0
  /\ op.op \in {"update"} => t.rc.k = "dir" \/ t.rc.n = 0
=============================================================================

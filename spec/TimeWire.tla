------------------------------ MODULE TimeWire ------------------------------
(* C40: conversions between times and durations and their wire form (seconds and nanoseconds), rounding,
   and tickers (bd-time/src/lib.rs).

   A count of seconds is [dh, dl, s]: (dh * 10^6 + dl) days, 0 <= dl < 10^6, and s seconds of the day,
   so that 64-bit values fit TLC's integers; s = -1 stands for a refusal. *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Cfgs, Vals

Refused == [dh |-> 0, dl |-> 0, s |-> -1, n |-> 0]
Day == 86400
Neg(v) == v.dh < 0     \* (the euclidean form: the sign is that of dh)
Zero(v) == v.dh = 0 /\ v.dl = 0 /\ v.s = 0
\* -v for a whole number of seconds
Minus(v) ==
  LET s == IF v.s = 0 THEN 0 ELSE Day - v.s
      b1 == IF v.s = 0 THEN 0 ELSE 1
      l == -(v.dl) - b1
      dl == IF l < 0 THEN l + 1000000 ELSE l
      b2 == IF l < 0 THEN 1 ELSE 0 IN
  [dh |-> -(v.dh) - b2, dl |-> dl, s |-> s]
Abs(v) == IF Neg(v) THEN Minus(v) ELSE [dh |-> v.dh, dl |-> v.dl, s |-> v.s]
W(x, n) == [dh |-> x.dh, dl |-> x.dl, s |-> x.s, n |-> n]

\* a and b in lexicographic order
Le(a, b) == a.dh < b.dh \/ (a.dh = b.dh /\ (a.dl < b.dl \/ (a.dl = b.dl /\ a.s <= b.s)))
\* the times that can be represented at all: years -9999 to 9999
MinT == [dh |-> -5, dl |-> 628413, s |-> 0]
MaxT == [dh |-> 2, dl |-> 932896, s |-> 86399]
InRange(v) == Le(MinT, v) /\ Le(v, MaxT)

\* seconds modulo i, for |days| < 10^7 and i < 46341 or a multiple of a day
Days(v) == v.dh * 1000000 + v.dl
Mod(v, i) ==
  IF i % Day = 0 THEN (Days(v) % (i \div Day)) * Day + v.s
  ELSE ((Days(v) % i) * (Day % i) + v.s) % i
\* v + k seconds, |k| < 10^9
Plus(v, k) ==
  LET t == v.s + k
      d == v.dl + (t \div Day) IN
  [dh |-> v.dh + (d \div 1000000), dl |-> d % 1000000, s |-> t % Day]

Convert(op) ==
  LET v == op.v IN
  CASE op.op \in {"ts", "tsoff"} -> v
    [] op.op = "fromts" -> IF InRange(v) THEN (IF v.n >= 0 THEN v ELSE W(v, 0)) ELSE Refused
    [] op.op = "ms" -> W(v, v.n \div 1000000)
    [] op.op = "floor" -> W(Plus(v, -Mod(v, op.i)), 0)
    \* (whole seconds only: what happens to a fraction is not part of the property)
    [] op.op = "ceil" -> W(IF Mod(v, op.i) = 0 THEN v ELSE Plus(v, op.i - Mod(v, op.i)), 0)
    [] op.op \in {"dur", "stddur", "fromdur"} -> v
    [] op.op = "abs" -> W(Abs(v), IF v.n < 0 THEN -(v.n) ELSE v.n)
    [] op.op = "checked" -> IF Neg(v) \/ v.n < 0 THEN Refused ELSE v

S0(cfg) == [n |-> 0]
\* A ticker's result is checked by Match; here its first deadline counts from zero for all kinds but the jittered one.
Outcomes(s, op) == {[s |-> s, res |-> IF op.op = "tick" THEN <<>> ELSE Convert(op)]}

TickOk(op, f) ==
  CASE op.kind \in {"sleep", "timeout", "now", "advance"} -> f = <<op.i>>
    [] op.kind = "timeoutok" -> f = <<op.i \div 2>>
    [] op.kind = "instant" -> f = <<op.i + 7>>
    \* a ticker of a zero interval ticks as fast as it can
    [] op.i = 0 -> Len(f) = op.k /\ f[1] \in 0 .. 1 /\ \A j \in 2 .. Len(f) : f[j] - f[j - 1] \in 0 .. 1
    [] OTHER ->
      /\ Len(f) = op.k
      /\ CASE op.kind = "interval" -> f[1] = 0
           [] op.kind = "interval_at" -> f[1] = op.i
           [] OTHER -> f[1] \in 0 .. op.i
      /\ \A j \in 2 .. Len(f) : f[j] = f[j - 1] + op.i

Match1(op, a, b) == IF op.op = "tick" THEN TickOk(op, b) ELSE a = b

Ops(s) == [op : {"ts", "fromts", "ms", "dur", "fromdur", "abs", "checked"}, v : Vals]
          \cup [op : {"floor", "ceil"}, v : {x \in Vals : x.n = 0 /\ InRange(x)}, i : {1, 7, 60, 300, 86400, 604800}]
Inv(s) == TRUE
StepOk(s, op, o) ==
  \* there and back again
  /\ op.op = "ts" /\ InRange(op.v) /\ op.v.n >= 0 => Convert([op |-> "fromts", v |-> o.res]) = op.v
  /\ op.op = "dur" => Convert([op |-> "fromdur", v |-> o.res]) = op.v
  \* rounding: a multiple of the interval, at most one interval away, on the right side
  /\ op.op \in {"floor", "ceil"} => Mod(o.res, op.i) = 0
  /\ op.op = "floor" => Le(o.res, op.v) /\ Le(op.v, Plus(o.res, op.i - 1))
  /\ op.op = "ceil" => Le(op.v, o.res) /\ Le(o.res, Plus(op.v, op.i - 1))
  /\ op.op = "abs" => ~Neg(o.res) /\ o.res.n >= 0
=============================================================================

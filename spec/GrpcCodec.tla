----------------------------- MODULE GrpcCodec -----------------------------
(* C18: framing (bd-grpc-codec).  Streams with an encoder and a decoder each; frames travel in pieces.
   Position in a stream: whole frames delivered and how much of the next one: 1 .. 4 of the prefix, 5 the
   prefix, 6 half of the body, 7 all but its last byte. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* cfg: enc (sequence of "none", "less", "ful": compression of each stream), dec (does the decoder decompress), init
CONSTANTS Cfgs, Lens, MaxSent, Bad
Frame(l, k, b) == [len |-> l, kind |-> k, bad |-> b]
S0(c) == [c |-> c, sent |-> [i \in DOMAIN c.enc |-> <<>>], at |-> [i \in DOMAIN c.enc |-> [f |-> 0, p |-> 0]], dead |-> [i \in DOMAIN c.enc |-> FALSE]]
Streams(s) == DOMAIN s.c.enc

Size(l) == IF l = 0 THEN 0 ELSE IF l < 128 THEN l + 2 ELSE IF l < 16384 THEN l + 3 ELSE IF l < 2097152 THEN l + 4 ELSE l + 5
Squeezed(s, st, l) == s.c.enc[st] # "none" /\ Size(l) >= 100
\* what cannot be decoded: broken compressed data, a broken message, compressed data for a decoder without decompression
Fails(s, st, fr) == fr.bad # "no" \/ (Squeezed(s, st, fr.len) /\ ~s.c.dec[st])

\* frame q.f + 1 ends at its prefix when it is empty
Norm(s, st, q) == IF q.p >= 5 /\ s.sent[st][q.f + 1].bad = "no" /\ Size(s.sent[st][q.f + 1].len) = 0 THEN [f |-> q.f + 1, p |-> 0] ELSE q
Before(a, b) == a.f < b.f \/ (a.f = b.f /\ a.p < b.p)
Places(s, st) == {[f |-> f, p |-> p] : f \in 0 .. Len(s.sent[st]) - 1, p \in 0 .. 7} \cup {[f |-> Len(s.sent[st]), p |-> 0]}

\* messages that become complete: from frame a.f + 1 to frame b.f
FirstBad(s, st, a, b) == {i \in a + 1 .. b : Fails(s, st, s.sent[st][i]) /\ \A j \in a + 1 .. i - 1 : ~Fails(s, st, s.sent[st][j])}
SumSizes(fs) == LET RECURSIVE F(_) F(i) == IF i > Len(fs) THEN 0 ELSE Size(fs[i].len) + F(i + 1) IN F(1)

Outcomes(s, op) ==
  LET st == op.st IN
  CASE op.op = "enc" ->
         {[s |-> [s EXCEPT !.sent[st] = Append(@, Frame(op.len, op.kind, "no"))],
           res |-> [r |-> "ok", sq |-> Squeezed(s, st, op.len), size |-> Size(op.len), got |-> <<>>]]}
    \* a frame nobody can decode
    [] op.op = "bad" ->
         {[s |-> [s EXCEPT !.sent[st] = Append(@, Frame(0, 0, op.how))], res |-> [r |-> "ok", sq |-> FALSE, size |-> 0, got |-> <<>>]]}
    [] op.op = "feed" ->
         LET b == Norm(s, st, op.to)
             fs == SubSeq(s.sent[st], s.at[st].f + 1, b.f)
             t == [s EXCEPT !.at[st] = b] IN
         IF FirstBad(s, st, s.at[st].f, b.f) # {}
         THEN {[s |-> [t EXCEPT !.dead[st] = TRUE], res |-> [r |-> "err", sq |-> FALSE, size |-> 0, got |-> <<>>]]}
         ELSE {[s |-> t, res |-> [r |-> "ok", sq |-> FALSE, size |-> SumSizes(fs), got |-> [i \in DOMAIN fs |-> <<fs[i].len, IF fs[i].len = 0 THEN 0 ELSE fs[i].kind>>]]]}

\* b: observed; n, all: length and sum so far of what was produced (enc) or handed over (feed); cnt, plain: the stream's counters
\* before and after are differences, ctr: counters that were attached show the same
Match1(op, a, b) ==
  /\ a.r = b.r /\ b.ctr
  /\ op.op = "enc" => /\ a.sq = b.sq /\ b.d[1] = b.n /\ b.d[2] = a.size + 5
                      /\ ~a.sq => b.n = a.size + 5
  /\ op.op = "feed" => /\ a.got = b.got /\ b.d[1] = b.n
                       /\ a.r = "ok" => b.d[2] = a.size

Live(s) == {i \in Streams(s) : ~s.dead[i]}
Ops(s) ==
  {[op |-> "enc", st |-> i, len |-> l, kind |-> k] : i \in {j \in Live(s) : Len(s.sent[j]) < MaxSent}, l \in Lens, k \in {1, 2}}
  \cup {[op |-> "bad", st |-> i, how |-> h] : i \in {j \in Live(s) : Len(s.sent[j]) < MaxSent}, h \in Bad}
  \cup UNION {{[op |-> "feed", st |-> i, to |-> q] : q \in {x \in Places(s, i) : Before(s.at[i], Norm(s, i, x))}} : i \in Live(s)}

Inv(s) == \A i \in Streams(s) : s.at[i].f <= Len(s.sent[i])
StepOk(s, op, o) ==
  \* only what is complete comes out, in order, each once
  /\ op.op = "feed" /\ o.res.r = "ok" => Len(o.res.got) = o.s.at[op.st].f - s.at[op.st].f
  \* other streams are not touched
  /\ \A i \in Streams(s) \ {op.st} : o.s.at[i] = s.at[i] /\ o.s.dead[i] = s.dead[i]
=============================================================================

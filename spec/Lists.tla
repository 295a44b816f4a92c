------------------------------- MODULE Lists -------------------------------
(* Containers holding a sequence of entries: attribute lists (al), index roots (ir) and     *)
(* index buffers (ib), extended attributes (ea) and WSL extended attributes (lx).           *)
EXTENDS Emit, Bytes, Utf16, Mem, FiniteSets

CONSTANTS Scope

VARIABLES cid, inp, pos, out, st
vars == <<cid, inp, pos, out, st>>

B == inp.b
K == inp.k
N == Len(B)
Left == N - pos
U8(o) == B[pos + o + 1]
U16(o) == BU16(B, pos + o)
U32(o) == BU32(B, pos + o)
Raw(o, n) == SubSeq(B, pos + o + 1, Min(N, pos + o + n))
Al8(x) == ((x + 7) \div 8) * 8

(* ---- exhaustive families ---- *)
LE16(v) == <<v % 256, v \div 256>>
LE32(v) == <<v % 256, (v \div 256) % 256, (v \div 65536) % 256, v \div 16777216>>
W(v) == LE32(v) \o <<0, 0, 0, 0>>
Fill(n, v) == [k \in 1..n |-> v + k]
Cut(b, n) == SubSeq(b, 1, Min(n, Len(b)))
PadTo(b, n) == b \o Fill(Max(0, n - Len(b)), 90)
AlE(rl, nl, no, id) == PadTo(LE32(128) \o LE16(rl) \o <<nl, no>> \o W(id) \o W(id + 1) \o LE16(id + 2), Al8(Max(rl, 26)))
SmallAl == \E r1 \in {25, 26, 27, 32, 33, 40}, n1 \in {0, 1, 3, 4}, o1 \in {0, 26, 30}, r2 \in {0, 26, 32, 48}, n2 \in {0, 2}, c \in {0, 1, 6, 7, 8, 9} :
             LET b == AlE(r1, n1, o1, 10) \o AlE(r2, n2, 26, 50) \o AlE(32, 1, 26, 90) IN inp = [k |-> "al", b |-> Cut(b, Len(b) - c)]
IxE(ln, al, fl, id) == PadTo(W(id) \o LE16(ln) \o LE16(al) \o LE16(fl) \o <<0, 0>>, Al8(Max(ln, 16)))
Hdr(k, fe, ff) == (IF k = "ir" THEN W(48) \o W(4096) ELSE Fill(24, 30)) \o LE32(fe) \o LE32(ff) \o LE32(ff + 8) \o <<1, 0, 0, 0>>
SmallIx == \E k \in {"ir", "ib"}, l1 \in {8, 16, 24, 25, 32}, a1 \in {0, 1, 8, 12}, f1 \in 0..3, l2 \in {15, 16, 32, 80}, a2 \in {0, 4}, f2 \in {0, 2}, d \in {-8, -4, -2, 0, 1, 100}, c \in {0, 1, 4, 20} :
             LET e == IxE(l1, a1, f1, 10) \o IxE(l2, a2, f2, 50) \o IxE(24, 6, 0, 90)
                 b == Hdr(k, 16, 16 + Len(e) + d) \o e
             IN inp = [k |-> k, b |-> Cut(b, Len(b) - c)]
EaE(nx, fl, nl, vl, z) == LE32(nx) \o <<fl, nl>> \o LE16(vl) \o Fill(nl, 65) \o <<z>> \o Fill(vl, 1)
SmallEa == \E n1 \in {0, 1, 4, 9, 12, 13, 16, 40}, l1 \in {0, 1, 3}, v1 \in {0, 2, 4}, z \in {0, 7}, n2 \in {0, 12, 16}, c \in {0, 1, 5} :
             LET b == PadTo(EaE(n1, 128, l1, v1, z), IF n1 \in {0, 1, 4} THEN 16 ELSE n1) \o EaE(n2, 0, 2, 3, 0) \o Fill(2, 0) IN inp = [k |-> "ea", b |-> Cut(b, Len(b) - c)]
LxB(nx, vl, nl) == LE32(nx) \o LE16(vl) \o <<nl>> \o Fill(nl, 65) \o Fill(vl, 1)
SmallLx == \E v \in {0, 1, 2}, f \in {0, 1}, n1 \in {0, 8, 9, 12, 16, 20}, v1 \in {0, 1, 5, 30}, l1 \in {0, 1, 4, 9}, n2 \in {0, 10}, c \in {0, 3, 9} :
             LET b == LE16(f) \o LE16(v) \o PadTo(LxB(n1, v1, l1), Max(n1, 9)) \o LxB(n2, 2, 3) IN inp = [k |-> "lx", b |-> Cut(b, Len(b) - c)]
Small == Scope # "none" /\ (SmallAl \/ SmallIx \/ SmallEa \/ SmallLx)

Base == IF K = "ir" THEN 16 ELSE 24
First == CASE K = "al" -> 0 [] K \in {"ir", "ib"} -> Base + BU32(B, Base) [] K = "ea" -> 0 [] K = "lx" -> 4
\* Where the entries of an index end.
EndOf == IF K \in {"ir", "ib"} THEN Min(N, Base + BU32(B, Base + 4)) ELSE N

Init ==
  /\ \/ cid = 0 /\ Small
     \/ cid \in 1..Len(Cases) /\ inp = Cases[cid]
  /\ pos = 0 /\ out = <<>> /\ st = "open"

LxOK == N >= 12 /\ BU16(B, 2) = 1 /\ BU16(B, 0) = 0
Open == /\ st = "open"
        /\ IF K = "lx" /\ ~LxOK THEN st' = "reject" /\ UNCHANGED pos ELSE st' = "walk" /\ pos' = First
        /\ UNCHANGED <<cid, inp, out>>

Stop == st' = "end" /\ UNCHANGED <<cid, inp, pos, out>>
Report1(e, step, last) == out' = Append(out, e) /\ pos' = pos + step /\ st' = (IF last THEN "end" ELSE st) /\ UNCHANGED <<cid, inp>>

NameU(o, n) == LET r == Raw(o, 2 * n) IN Decode16([k \in 1..(Len(r) \div 2) |-> BU16(r, 2 * (k - 1))]) \o (IF Len(r) % 2 = 1 THEN <<65533>> ELSE <<>>)
StepAl == IF Left < 26 \/ U16(4) < 26 \/ (U8(6) > 0 /\ U8(7) + (2 * U8(6)) > U16(4)) THEN Stop
          ELSE Report1([tc |-> Raw(0, 4), name |-> IF U8(6) = 0 THEN <<-1>> ELSE NameU(U8(7), U8(6)), lo |-> Raw(8, 8), ref |-> Raw(16, 8), inst |-> U16(24)], Al8(U16(4)), FALSE)
StepIx == IF pos >= EndOf \/ Left < 16 \/ U16(8) < 16 \/ U16(10) = 0 THEN Stop
          ELSE LET isEnd == (U16(12) \div 2) % 2 = 1
                   node == U16(12) % 2 = 1
               IN Report1([ref |-> Raw(0, 8), len |-> U16(8), al |-> U16(10), fl |-> U16(12), attr |-> IF isEnd THEN <<-1>> ELSE Raw(16, U16(10)),
                           vcn |-> IF node /\ U16(8) <= Left THEN Raw(U16(8) - 8, 8) ELSE <<>>], Al8(U16(8)), K = "ib" /\ isEnd)
StepEa == IF Left <= 8 THEN Stop
          ELSE LET nl == U8(5)
                   vl == U16(6)
                   nx == U32(0)
               IN IF 9 + nl + vl > Left \/ nx > Left \/ U8(8 + nl) # 0 THEN Stop
                  ELSE Report1([name |-> Raw(8, nl + 1), fl |-> U8(4), val |-> Raw(9 + nl, vl)], nx, nx = 0)
StepLx == IF Left < 4 THEN Stop
          ELSE LET nx == U32(0)
                   blk == IF nx > 0 THEN Raw(0, nx) ELSE Raw(0, N)
                   Sub(o, n) == SubSeq(blk, o + 1, Min(Len(blk), o + n))
               IN IF Len(blk) < 9 \/ U8(6) = 0 THEN Stop
                  ELSE Report1([name |-> Sub(7, U8(6)), val |-> Sub(7 + U8(6), U16(4))], nx, nx = 0)
Step == st = "walk" /\ (CASE K = "al" -> StepAl [] K \in {"ir", "ib"} -> StepIx [] K = "ea" -> StepEa [] K = "lx" -> StepLx)
Over == st \in {"end", "reject"}
Done == Over /\ UNCHANGED vars
Next == Open \/ Step \/ Done
Spec == Init /\ [][Next]_vars

Slack == IF K = "ib" THEN LET f == Base + BU32(B, Base + 4) IN IF f >= N THEN <<>> ELSE SubSeq(B, f + 1, N) ELSE <<>>
Obs == [st |-> st, e |-> out, slack |-> Slack]
Report == Over => Out(cid, inp, Obs)

(* ---- what a user relies on ---- *)
\* Every step moves forward, so enumeration ends.
Progress == [][st = "walk" /\ st' = "walk" => pos' > pos]_vars
Bounded == Len(out) <= N
=============================================================================

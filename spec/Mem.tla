-------------------------------- MODULE Mem --------------------------------
(* Byte memory given as segments [a |-> address, b |-> bytes] over zeros; a later segment *)
(* covers an earlier one.                                                                   *)
EXTENDS Integers, Sequences

MemByte(M, a) == LET S == { k \in 1..Len(M) : a >= M[k].a /\ a < M[k].a + Len(M[k].b) }
                 IN IF S = {} THEN 0 ELSE LET k == CHOOSE m \in S : \A q \in S : q <= m IN M[k].b[a - M[k].a + 1]
MemBytes(M, a, n) == [k \in 1..n |-> MemByte(M, a + k - 1)]
MemU16(M, a) == MemByte(M, a) + (256 * MemByte(M, a + 1))
\* 32-bit fields saturate at 2^30.
MemU32(M, a) == IF MemByte(M, a + 3) >= 64 THEN 1073741824 ELSE MemU16(M, a) + (65536 * MemU16(M, a + 2))
BU16(b, o) == b[o + 1] + (256 * b[o + 2])
BU32(b, o) == IF b[o + 4] >= 64 THEN 1073741824 ELSE BU16(b, o) + (65536 * BU16(b, o + 2))
=============================================================================

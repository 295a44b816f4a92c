-------------------------------- MODULE Mft --------------------------------
(* An $MFT as a sequence of file record segments: segment number n is S[n + 1].            *)
(*   v    - the segment passes its own checks                                               *)
(*   use, dir - in use, directory;  seq - recorded sequence number                          *)
(*   bn, bs - reference to the base segment (0, 0 for a base segment)                        *)
(*   names - $FILE_NAME attributes stored in this segment: [fl, pn, ps, nm]                  *)
EXTENDS Integers, Sequences

Root == 5

Seg(S, n) == S[n + 1]
Exists(S, n) == n >= 0 /\ n < Len(S) /\ S[n + 1].v
IsBase(S, n) == Seg(S, n).bn = 0 /\ Seg(S, n).bs = 0

\* The sequence number references to this segment carry: deallocation increments the number
\* stored in the segment (0 is skipped on the next allocation, so 0 means 65535 before).
RefSeq(S, n) == LET s == Seg(S, n) IN
  IF s.use = 1 THEN s.seq ELSE IF s.seq >= 2 THEN s.seq - 1 ELSE IF s.seq = 0 THEN 65535 ELSE s.seq

Numbers(S) == [k \in 1..Len(S) |-> k - 1]
\* Children of base n, in segment order.
Kids(S, n) == SelectSeq(Numbers(S), LAMBDA k : Exists(S, k) /\ ~IsBase(S, k) /\ Seg(S, k).bn = n /\ Seg(S, k).bs = RefSeq(S, n))
Assembly(S, n) == <<n>> \o Kids(S, n)

\* Lookup by number; e = -1 when no sequence number is expected; <<>> is a rejection.
ByNumber(S, n, e, allowChild) ==
  IF ~Exists(S, n) THEN <<>>
  ELSE IF e # -1 /\ RefSeq(S, n) # e THEN <<>>
  ELSE IF IsBase(S, n) THEN Assembly(S, n)
  ELSE IF ~allowChild THEN <<>>
  ELSE LET b == Seg(S, n).bn IN
       IF Exists(S, b) /\ IsBase(S, b) /\ RefSeq(S, b) = Seg(S, n).bs THEN Assembly(S, b) ELSE <<>>

\* All names of a record given as its assembly.
RECURSIVE NamesOf(_, _)
NamesOf(S, a) == IF a = <<>> THEN <<>> ELSE Seg(S, a[1]).names \o NamesOf(S, SubSeq(a, 2, Len(a)))
=============================================================================

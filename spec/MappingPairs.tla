---------------------------- MODULE MappingPairs ----------------------------
(* Decoding the mapping pairs of a nonresident attribute: a byte string is consumed one   *)
(* (count, delta) pair at a time until the terminator; the result is the list of runs      *)
(* (start cluster or hole, number of clusters) or a rejection.                              *)
EXTENDS Emit, Bytes, FiniteSets

CONSTANTS Alphabet, MaxLen      \* exhaustive scope

W == 10                         \* wide enough for a sum of 2^15 signed 64-bit deltas

VARIABLES cid, inp, i, cur, runs, st
vars == <<cid, inp, i, cur, runs, st>>

buf == inp.bytes

Small == UNION { { [bytes |-> s] : s \in [1..n -> Alphabet] } : n \in 0..MaxLen }

Init ==
  /\ \/ cid = 0 /\ inp \in Small
     \/ cid \in 1..Len(Cases) /\ inp = Cases[cid]
  /\ i = 1 /\ cur = WZero(W) /\ runs = <<>> /\ st = "run"

CountLen == buf[i] % 16
DeltaLen == buf[i] \div 16
Have(k) == i + k <= Len(buf)    \* k payload bytes follow the header byte

Stop(s) == st' = s /\ UNCHANGED <<cid, inp, i, cur, runs>>

Overrun    == st = "run" /\ i > Len(buf) /\ Stop("reject")
Terminator == st = "run" /\ i <= Len(buf) /\ buf[i] = 0 /\ Stop("ok")

BadHeader == CountLen = 0 \/ CountLen > 8 \/ DeltaLen > 8
Pair ==
  /\ st = "run" /\ i <= Len(buf) /\ buf[i] # 0
  /\ IF BadHeader \/ ~Have(CountLen + DeltaLen) THEN Stop("reject")
     ELSE LET cnt == WSext(SubSeq(buf, i + 1, i + CountLen), W)
              dlt == SubSeq(buf, i + CountLen + 1, i + CountLen + DeltaLen)
          IN IF WNeg(cnt) \/ WIsZero(cnt) THEN Stop("reject")
             ELSE IF DeltaLen = 0
               THEN /\ runs' = Append(runs, [lcn |-> <<>>, n |-> cnt])
                    /\ i' = i + 1 + CountLen
                    /\ UNCHANGED <<cid, inp, cur, st>>
               ELSE LET c2 == WAdd(cur, WSext(dlt, W))
                    IN IF WIsZero(c2) /\ runs # <<>> THEN Stop("reject")
                       ELSE /\ runs' = Append(runs, [lcn |-> c2, n |-> cnt])
                            /\ cur' = c2
                            /\ i' = i + 1 + CountLen + DeltaLen
                            /\ UNCHANGED <<cid, inp, st>>

Done == st # "run" /\ UNCHANGED vars
Next == Overrun \/ Terminator \/ Pair \/ Done
Spec == Init /\ [][Next]_vars

Obs == [st |-> st, runs |-> IF st = "ok" THEN runs ELSE <<>>]
Report == st # "run" => Out(cid, inp, Obs)

(* ---- what a user relies on ---- *)
Positive   == \A k \in 1..Len(runs) : ~WNeg(runs[k].n) /\ ~WIsZero(runs[k].n)
OnlyFirst0 == \A k \in 2..Len(runs) : runs[k].lcn = <<>> \/ ~WIsZero(runs[k].lcn)
Bounded    == i <= Len(buf) + 1 /\ Len(runs) <= i
Terminated == st = "ok" => i <= Len(buf) /\ buf[i] = 0
\* The accepted prefix re-encodes to itself: the pairs tile the consumed bytes exactly.
RECURSIVE Tile(_, _)
Tile(p, k) == IF k > Len(runs) THEN p ELSE Tile(p + 1 + (buf[p] % 16) + (buf[p] \div 16), k + 1)
Tiled      == Tile(1, 1) = i
\* Holes do not move the reference point of the following relative offset.
LastLcn == LET S == { k \in 1..Len(runs) : runs[k].lcn # <<>> }
           IN IF S = {} THEN WZero(W) ELSE runs[CHOOSE k \in S : \A j \in S : j <= k].lcn
HoleNeutral == cur = LastLcn
=============================================================================

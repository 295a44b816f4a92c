------------------------------- MODULE Pairs -------------------------------
(* Mapping pairs as a function (the state machine of the same decoder is MappingPairs).    *)
EXTENDS Integers, Sequences, Bytes

Nib(b) == b \div 16
RECURSIVE PairsOKFrom(_, _, _, _)
\* w: the mapping pairs, i: position, cur: current cluster (9 bytes, signed), n: pairs so far
PairsOKFrom(w, i, cur, n) ==
  IF i > Len(w) THEN FALSE
  ELSE IF w[i] = 0 THEN TRUE
  ELSE LET cl == w[i] % 16
           ol == Nib(w[i])
       IN IF cl = 0 \/ cl > 8 \/ ol > 8 \/ i + cl + ol > Len(w) THEN FALSE
          ELSE LET cnt == SubSeq(w, i + 1, i + cl)
                   off == SubSeq(w, i + cl + 1, i + cl + ol)
                   nc == IF ol = 0 THEN cur ELSE WAdd(cur, WSext(off, 9))
               IN IF WNeg(cnt) \/ WIsZero(cnt) THEN FALSE
                  ELSE IF ol > 0 /\ n > 0 /\ WIsZero(nc) THEN FALSE
                  ELSE PairsOKFrom(w, i + 1 + cl + ol, nc, n + 1)
PairsOK(w) == PairsOKFrom(w, 1, WZero(9), 0)
=============================================================================

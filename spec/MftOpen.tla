------------------------------ MODULE MftOpen ------------------------------
(* Locating the whole $MFT: the runs of the first segment make further segments readable, *)
(* whose runs make further segments readable, and so on, in cluster order.                  *)
(*   pieces[k] = [seg, lo, runs, bad]: piece k of the $MFT, held by segment seg              *)
(*   list = entries of the attribute list: [t, seg, lo] in storage order                     *)
EXTENDS Emit, Integers, Sequences, FiniteSets

CONSTANTS Scope

VARIABLES cid, inp, todo, have, st
vars == <<cid, inp, todo, have, st>>

P == inp.pieces
RECURSIVE Total(_)
Total(r) == IF r = <<>> THEN 0 ELSE r[1][2] + Total(SubSeq(r, 2, Len(r)))

(* ---- exhaustive family: three pieces, any placement of the segments holding them ---- *)
Shapes == { [cs |-> 1024, l |-> <<5, 2, 1>>], [cs |-> 1024, l |-> <<6, 1, 1>>], [cs |-> 4096, l |-> <<1, 1, 1>>], [cs |-> 4096, l |-> <<2, 1, 1>>], [cs |-> 512, l |-> <<10, 3, 3>>], [cs |-> 512, l |-> <<9, 4, 3>>], [cs |-> 1024, l |-> <<3, 2, 3>>] }
Pc(k, s, lo, n) == [seg |-> s, lo |-> lo, runs |-> IF n = 1 THEN << <<40 - (8 * k), 1>> >> ELSE << <<40 - (8 * k), n - 1>>, <<50 + (5 * k), 1>> >>, bad |-> FALSE, dup |-> FALSE]
En(t, s, lo) == [t |-> t, seg |-> s, lo |-> lo]
Perms == {<<1, 2, 3>>, <<1, 3, 2>>, <<2, 1, 3>>, <<3, 2, 1>>}
Small == /\ Scope # "none"
         /\ \E sh \in Shapes, s2 \in 4..9, s3 \in 4..10, o \in Perms, res \in BOOLEAN, d \in {0, 2, 3, 4} :
              LET l2 == sh.l[1]
                  l3 == sh.l[1] + sh.l[2]
                  tot == l3 + sh.l[3]
                  es == << En("data", IF d = 4 THEN 4 ELSE 0, 0), En("data", s2, l2), En("data", s3, l3) >>
                  all == << En("other", 0, 0), En("named", 4, 0), es[o[1]], es[o[2]], es[o[3]] >>
              IN /\ s2 # s3
                 /\ inp = [cs |-> sh.cs, voff |-> 1536, size |-> (tot * sh.cs) - 512, haslist |-> TRUE, res |-> res,
                           pieces |-> << Pc(1, 0, 0, sh.l[1]), Pc(2, s2, l2, sh.l[2]), Pc(3, s3, l3, sh.l[3]) >>,
                           list |-> IF d \in {0, 4} THEN all ELSE SelectSeq(all, LAMBDA e : ~(e.t = "data" /\ e = es[d]))]

Init ==
  /\ \/ cid = 0 /\ Small
     \/ cid \in 1..Len(Cases) /\ inp = Cases[cid]
  /\ todo = <<>> /\ have = <<>> /\ st = "first"

\* clusters known so far (have: indexes of the pieces joined so far)
RECURSIVE Known(_)
Known(h) == IF h = <<>> THEN 0 ELSE Total(P[h[1]].runs) + Known(SubSeq(h, 2, Len(h)))
\* Segment n can be read through the runs known so far.
Readable(n) == (n + 1) * 1024 <= Known(have) * inp.cs /\ (n + 1) * 1024 <= inp.size
PieceIn(s) == { k \in 1..Len(P) : P[k].seg = s }

RECURSIVE Ins(_, _)
Ins(q, e) == IF q = <<>> THEN <<e>> ELSE IF q[Len(q)].lo <= e.lo THEN Append(q, e) ELSE Append(Ins(SubSeq(q, 1, Len(q) - 1), e), q[Len(q)])
RECURSIVE SortByLo(_, _)
SortByLo(es, acc) == IF es = <<>> THEN acc ELSE SortByLo(SubSeq(es, 2, Len(es)), Ins(acc, es[1]))
Entries == SortByLo(SelectSeq(inp.list, LAMBDA e : e.t = "data"), <<>>)

Stop(s) == st' = s /\ UNCHANGED <<cid, inp, todo, have>>
First ==
  /\ st = "first"
  /\ IF PieceIn(0) = {} THEN Stop("reject")
     ELSE LET k == CHOOSE k \in PieceIn(0) : TRUE IN
          IF P[k].lo # 0 \/ P[k].bad \/ P[k].runs = <<>> THEN Stop("reject")
          ELSE IF ~inp.haslist THEN st' = "ready" /\ have' = <<k>> /\ todo' = <<>> /\ UNCHANGED <<cid, inp>>
          ELSE IF Entries = <<>> \/ Entries[1].seg # 0 THEN Stop("reject")
          ELSE st' = "more" /\ have' = <<k>> /\ todo' = SubSeq(Entries, 2, Len(Entries)) /\ UNCHANGED <<cid, inp>>
Extend ==
  /\ st = "more" /\ todo # <<>>
  /\ LET n == todo[1].seg
         ks == PieceIn(n)
     IN IF ~Readable(n) \/ ~Readable(3) THEN Stop("reject")           \* the volume information is in segment 3
        ELSE IF ks = {} THEN have' = have /\ todo' = SubSeq(todo, 2, Len(todo)) /\ UNCHANGED <<cid, inp, st>>
        ELSE LET k == CHOOSE k \in ks : TRUE IN
             IF P[k].bad \/ P[k].lo # Known(have) THEN Stop("reject")
             ELSE have' = Append(have, k) /\ todo' = SubSeq(todo, 2, Len(todo)) /\ UNCHANGED <<cid, inp, st>>
Ready == st = "more" /\ todo = <<>> /\ st' = "ready" /\ UNCHANGED <<cid, inp, todo, have>>
Over == st \in {"reject", "ready"}
Done == Over /\ UNCHANGED vars
Next == First \/ Extend \/ Ready \/ Done
Spec == Init /\ [][Next]_vars

RECURSIVE Joined(_)
Joined(h) == IF h = <<>> THEN <<>> ELSE P[h[1]].runs \o Joined(SubSeq(h, 2, Len(h)))
Segs == inp.size \div 1024
Obs == IF st = "reject" THEN [st |-> st] ELSE [st |-> st, runs |-> Joined(have), size |-> inp.size, can |-> [n \in 1..Segs |-> IF Readable(n - 1) THEN n - 1 ELSE -1]]
Report == Over => Out(cid, inp, Obs)

(* ---- what a user relies on ---- *)
\* The known runs always are a gap-free prefix of the $MFT.
Prefix == \A k \in 1..Len(have) : P[have[k]].lo = Known(SubSeq(have, 1, k - 1))
\* If every listed piece was taken, the last byte is readable.
Whole == st = "ready" /\ Len(have) = Len(P) => Known(have) * inp.cs >= inp.size \/ \E k \in 1..Len(P) : P[k].runs = <<>>
=============================================================================

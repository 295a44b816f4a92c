----------------------------- MODULE UsnReport -----------------------------
(* The report made of a change journal and an $MFT: one row per record of the journal, in order, *)
(* with what the record tells and the path, in the $MFT, of the file it is about, if that file is *)
(* still the one with the sequence number recorded.                                              *)
EXTENDS Emit, PathOps, FiniteSets

CONSTANTS Scope

VARIABLES cid, inp, i, rows
vars == <<cid, inp, i, rows>>
\* inp  [segs, j]: the $MFT, and the journal: [v version, fn, fs, pn, ps references (number and sequence number),
\*      r bits of the reason, s bits of the source, id for the timestamp, nm]

S == inp.segs
Sg(v, u, q, d, n) == [v |-> v, use |-> u, dir |-> d, seq |-> q, bn |-> 0, bs |-> 0, names |-> n]
Plain == Sg(TRUE, 1, 1, 0, <<>>)
Nm(k, fl, p) == [fl |-> fl, pn |-> p[1], ps |-> p[2], nm |-> <<64 + k, 98>>]
RootSeg == Sg(TRUE, 1, 5, 1, << [fl |-> 3, pn |-> 5, ps |-> 5, nm |-> <<46>>] >>)
Kid(s) == [s EXCEPT !.bn = 6, !.bs = 1]
Rec(v, f, p) == [v |-> v, fn |-> f[1], fs |-> f[2], pn |-> p[1], ps |-> p[2], r |-> <<8>>, s |-> <<>>, id |-> 1, nm |-> <<110>>]
ReasonBits == {0, 1, 2, 4, 5, 6, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 31}
SourceBits == {0, 1, 2, 3}
RefS == {<<6, 1>>, <<6, 2>>, <<6, 0>>, <<7, 1>>, <<7, 2>>, <<5, 5>>, <<5, 6>>, <<99, 1>>, <<0, 1>>}
Tables == { <<Plain, Plain, Plain, Plain, Plain, RootSeg, a, b>> :
            a \in {Sg(TRUE, 1, 1, 1, <<>>), Sg(FALSE, 1, 1, 1, <<>>), Sg(TRUE, 0, 2, 1, <<Nm(6, 1, <<5, 5>>)>>)} \cup { Sg(TRUE, 1, 1, 1, n) : n \in { <<Nm(6, 2, <<5, 5>>), Nm(8, 1, p)>> : p \in {<<5, 5>>, <<7, 1>>} } },
            b \in {Kid(Plain), Sg(TRUE, 1, 1, 1, <<Nm(7, 1, <<6, 1>>)>>), Sg(TRUE, 1, 1, 0, <<Nm(7, 3, <<6, 2>>)>>)} }
Small == \/ Scope # "none" /\ \E t \in Tables, v \in 2..4, f \in RefS, p \in {<<5, 5>>, <<6, 1>>} : inp = [segs |-> t, j |-> <<Rec(v, f, p), Rec(2, <<6, 1>>, <<5, 5>>)>>]
         \/ Scope # "none" /\ \E b \in 0..31, v \in {2, 4}, c \in {0, 7, 31} : inp = [segs |-> <<Plain, Plain, Plain, Plain, Plain, RootSeg>>, j |-> <<[Rec(v, <<5, 5>>, <<5, 5>>) EXCEPT !.r = IF c < b THEN <<c, b>> ELSE <<b>>, !.s = IF c = 7 THEN <<b>> ELSE <<>>]>>]
         \/ Scope # "none" /\ \E q \in { <<>>, <<2>>, <<2, 4>>, <<4, 2, 3>>, <<3, 3, 3, 2>>, <<4, 4>> } : inp = [segs |-> <<Plain, Plain, Plain, Plain, Plain, RootSeg>>, j |-> [k \in 1..Len(q) |-> [Rec(q[k], <<5, 5>>, <<5, 5>>) EXCEPT !.id = k - 1]]]

Init == /\ (cid = 0 /\ Small) \/ (cid \in 1..Len(Cases) /\ inp = Cases[cid])
        /\ i = 1 /\ rows = <<>>
R == inp.j[i]
\* The bits that have a name, in order, and those that have none.
Known(b, K) == SelectSeq(b, LAMBDA x : x \in K)
Other(b, K) == SelectSeq(b, LAMBDA x : x \notin K)
Row == [fn |-> R.fn, fs |-> R.fs, pn |-> R.pn, ps |-> R.ps, r |-> Known(R.r, ReasonBits), ro |-> Other(R.r, ReasonBits), s |-> Known(R.s, SourceBits), so |-> Other(R.s, SourceBits),
        id |-> IF R.v = 4 THEN -1 ELSE R.id, nm |-> IF R.v = 4 THEN <<>> ELSE R.nm, path |-> FirstOf(S, ByNumber(S, R.fn, R.fs, TRUE))]
Step == i <= Len(inp.j) /\ rows' = Append(rows, Row) /\ i' = i + 1 /\ UNCHANGED <<cid, inp>>
Over == i > Len(inp.j)
Done == Over /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Obs == [st |-> "ok", rows |-> rows]
Report == Over => Out(cid, inp, Obs)

(* ---- what a user relies on ---- *)
Ends == <>(i > Len(inp.j))
EachOnce == Over => Len(rows) = Len(inp.j)
\* No path is shown for a file whose number was given to another one since.
NotReused == \A k \in 1..Len(rows) : rows[k].path # <<>> => Exists(S, rows[k].fn) /\ RefSeq(S, rows[k].fn) = rows[k].fs
=============================================================================

------------------------------ MODULE Streams ------------------------------
(* The pieces of a file's streams (attribute records spread over its segments) joined     *)
(* into run lists. A piece: type t, name nm (0: none), resident or not, first cluster lo,   *)
(* last cluster hi, runs <<<<lcn, count>>, ..>> (lcn = -1: hole), size fs; k identifies it.  *)
EXTENDS Emit, Integers, Sequences, FiniteSets

CONSTANTS Scope

VARIABLES cid, inp, qi, todo, runs, touched, size, answers, merged
vars == <<cid, inp, qi, todo, runs, touched, size, answers, merged>>

P == inp.pieces

(* ---- exhaustive family ---- *)
TN == {<<128, 0>>, <<128, 1>>, <<160, 1>>}
R1 == << <<10, 1>>, <<-1, 1>> >>
R2 == << <<20, 2>> >>
Non(tn, lo, rr, fs) == [t |-> tn[1], nm |-> tn[2], res |-> FALSE, lo |-> lo, hi |-> lo + 1, runs |-> rr, fs |-> fs]
Kinds == { Non(tn, lo, rr, 7) : tn \in TN, lo \in {0, 2, 4}, rr \in {R1, R2} } \cup { Non(tn, lo, <<>>, fs) : tn \in TN, lo \in {0, 2}, fs \in {0, 7} }
         \cup { [t |-> 128, nm |-> n, res |-> TRUE, lo |-> 0, hi |-> 0, runs |-> <<>>, fs |-> 0] : n \in {0, 1} }
Small == /\ Scope # "none"
         /\ \E n \in 0..3 : \E s \in [1..n -> Kinds] : \E c \in (IF Scope = "quick" THEN {1} ELSE 0..2) : inp = [pieces |-> s, cut |-> c]

Queries == << <<128, 0>>, <<128, 1>>, <<128, 2>>, <<160, 0>>, <<160, 1>>, <<128, 4>>, <<128, 5>>, <<160, 3>> >>
Match(p, q) == ~p.res /\ p.t = q[1] /\ p.nm = q[2]

\* Stable order by first cluster.
RECURSIVE Ins(_, _)
Ins(sorted, k) == IF sorted = <<>> THEN <<k>>
                  ELSE IF P[sorted[Len(sorted)]].lo <= P[k].lo THEN Append(sorted, k)
                  ELSE Append(Ins(SubSeq(sorted, 1, Len(sorted) - 1), k), sorted[Len(sorted)])
RECURSIVE Order(_, _)
Order(ks, acc) == IF ks = <<>> THEN acc ELSE Order(SubSeq(ks, 2, Len(ks)), Ins(acc, ks[1]))
Pieces(q) == SelectSeq([k \in 1..Len(P) |-> k], LAMBDA k : Match(P[k], q))
RECURSIVE Total(_)
Total(r) == IF r = <<>> THEN 0 ELSE r[1][2] + Total(SubSeq(r, 2, Len(r)))

Init ==
  /\ \/ cid = 0 /\ Small
     \/ cid \in 1..Len(Cases) /\ inp = Cases[cid]
  /\ qi = 1 /\ todo = <<0>> /\ runs = <<>> /\ touched = 0 /\ size = -1 /\ answers = <<>> /\ merged = <<>>

Query == Queries[qi]
\* The size of a stream is the one recorded in the piece that starts at cluster zero.
SizeOf(q) == LET z == SelectSeq(Pieces(q), LAMBDA k : P[k].lo = 0) IN IF z = <<>> THEN -1 ELSE P[z[1]].fs
Answer(s, r) == /\ answers' = Append(answers, [q |-> s, r |-> r, sz |-> SizeOf(Query)])
                /\ qi' = qi + 1 /\ todo' = <<0>> /\ UNCHANGED <<cid, inp, runs, touched, size, merged>>

Start == /\ qi <= Len(Queries) /\ todo = <<0>>
         /\ IF Pieces(Query) = <<>> THEN Answer("none", <<>>)
            ELSE /\ todo' = Order(Pieces(Query), <<>>) /\ runs' = <<>> /\ touched' = 0 /\ size' = -1
                 /\ UNCHANGED <<cid, inp, qi, answers, merged>>
Take == /\ qi <= Len(Queries) /\ todo # <<0>> /\ todo # <<>>
        /\ LET p == P[todo[1]] IN
           IF p.lo # touched THEN Answer("err", <<>>)
           ELSE /\ runs' = runs \o p.runs
                /\ touched' = touched + Total(p.runs)
                /\ size' = IF size = -1 /\ p.lo = 0 THEN p.fs ELSE size
                /\ todo' = SubSeq(todo, 2, Len(todo))
                /\ UNCHANGED <<cid, inp, qi, answers, merged>>
Finish == /\ qi <= Len(Queries) /\ todo = <<>>
          /\ IF size = -1 \/ (size > 0 /\ runs = <<>>) THEN Answer("err", <<>>) ELSE Answer("ok", runs)

(* Merged enumeration: resident attributes as they are, then one attribute per starting piece. *)
RECURSIVE RunsOf(_)
RunsOf(ks) == IF ks = <<>> THEN <<>> ELSE P[ks[1]].runs \o RunsOf(SubSeq(ks, 2, Len(ks)))
Ext(k) == Order(SelectSeq([j \in 1..Len(P) |-> j], LAMBDA j : ~P[j].res /\ P[j].lo # 0 /\ P[j].t = P[k].t /\ P[j].nm = P[k].nm), <<>>)
Res(k) == [res |-> TRUE, t |-> P[k].t, nm |-> P[k].nm, r |-> <<>>, hi |-> k, fs |-> 0]
Mrg(k) == LET e == Ext(k) IN [res |-> FALSE, t |-> P[k].t, nm |-> P[k].nm, r |-> P[k].runs \o RunsOf(e), hi |-> IF e = <<>> THEN P[k].hi ELSE P[e[Len(e)]].hi, fs |-> P[k].fs]
Merge == /\ qi = Len(Queries) + 1
         /\ LET rs == SelectSeq([k \in 1..Len(P) |-> k], LAMBDA k : P[k].res)
                zs == SelectSeq([k \in 1..Len(P) |-> k], LAMBDA k : ~P[k].res /\ P[k].lo = 0)
            IN merged' = [k \in 1..Len(rs) |-> Res(rs[k])] \o [k \in 1..Len(zs) |-> Mrg(zs[k])]
         /\ qi' = qi + 1
         /\ UNCHANGED <<cid, inp, todo, runs, touched, size, answers>>

Over == qi = Len(Queries) + 2
Done == Over /\ UNCHANGED vars
Next == Start \/ Take \/ Finish \/ Merge \/ Done
Spec == Init /\ [][Next]_vars

Obs == [st |-> "ok", a |-> answers, m |-> merged]
Report == Over => Out(cid, inp, Obs)

(* ---- what a user relies on ---- *)
\* An answered run list covers exactly the clusters of its pieces, none lost or repeated.
Covers == \A k \in 1..Len(answers) : answers[k].q = "ok" =>
   LET ps == Pieces(Queries[k])
       tot[j \in 0..Len(ps)] == IF j = 0 THEN 0 ELSE tot[j - 1] + Total(P[ps[j]].runs)
   IN Total(answers[k].r) = tot[Len(ps)] /\ answers[k].sz # -1
\* A piece that does not start where the previous ones end makes the answer an error.
NoGap == \A k \in 1..Len(answers) : answers[k].q = "ok" => \A j \in 1..Len(Pieces(Queries[k])) : P[Pieces(Queries[k])[j]].lo <= Total(answers[k].r)
=============================================================================

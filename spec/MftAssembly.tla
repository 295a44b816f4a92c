---------------------------- MODULE MftAssembly ----------------------------
(* Enumerating an $MFT: one scan over the segments, each valid base reported with its     *)
(* children; lookups by number agree with the enumeration.                                  *)
EXTENDS Emit, Mft, FiniteSets

CONSTANTS Scope       \* "none", "quick" or "thorough"

VARIABLES cid, inp, pos, all, used, stat
vars == <<cid, inp, pos, all, used, stat>>

S == inp.segs

(* ---- exhaustive family: segments 1, 2 and 4 vary, 0 and 3 are the ones every $MFT has ---- *)
B(u, q) == [v |-> TRUE, use |-> u, dir |-> 0, seq |-> q, bn |-> 0, bs |-> 0, names |-> <<>>]
C(b, t, u, q) == [v |-> TRUE, use |-> u, dir |-> 0, seq |-> q, bn |-> b, bs |-> t, names |-> <<>>]
Bad == [v |-> FALSE, use |-> 1, dir |-> 0, seq |-> 1, bn |-> 0, bs |-> 0, names |-> <<>>]
Seqs == IF Scope = "thorough" THEN {0, 1, 2, 3} ELSE {0, 1, 2}
Kinds == {Bad} \cup { B(u, q) : u \in {0, 1}, q \in Seqs }
         \cup { C(b, t, uq[1], uq[2]) : b \in {1, 2, 4}, t \in {1, 2, 65535}, uq \in (IF Scope = "thorough" THEN {<<1, 1>>, <<0, 2>>, <<0, 0>>} ELSE {<<1, 1>>, <<0, 2>>}) }
Small == IF Scope = "none" THEN {} ELSE
  { [segs |-> <<B(1, 1), a, b, B(1, 3), c>>, exps |-> <<-1, 1, 2, 65535>>, tail |-> 0, size |-> 1024] : a \in Kinds, b \in Kinds, c \in Kinds }

Init ==
  /\ \/ cid = 0 /\ inp \in Small
     \/ cid \in 1..Len(Cases) /\ inp = Cases[cid]
  /\ pos = 0 /\ all = <<>> /\ used = <<>> /\ stat = <<0, 0>>

Rec(n) == [b |-> <<n, Seg(S, n).seq, Seg(S, n).use>>, m |-> Assembly(S, n)]

Scan ==
  /\ pos < Len(S)
  /\ pos' = pos + 1
  /\ IF ~Exists(S, pos) THEN UNCHANGED <<all, used, stat>>
     ELSE IF IsBase(S, pos)
       THEN /\ all' = Append(all, Rec(pos))
            /\ used' = IF Seg(S, pos).use = 1 THEN Append(used, Rec(pos)) ELSE used
            /\ stat' = <<stat[1] + 1, stat[2]>>
       ELSE /\ stat' = <<stat[1] + 1, stat[2] + 1>>
            /\ UNCHANGED <<all, used>>
  /\ UNCHANGED <<cid, inp>>

Over == pos = Len(S)
Done == Over /\ UNCHANGED vars
Next == Scan \/ Done
Spec == Init /\ [][Next]_vars

Lookups == [k \in 1..(Len(S) + 1) |-> [j \in 1..Len(inp.exps) |-> << ByNumber(S, k - 1, inp.exps[j], TRUE), ByNumber(S, k - 1, inp.exps[j], FALSE) >>]]
Obs == [st |-> "ok", all |-> all, used |-> used, stat |-> stat, q |-> Lookups]
Report == Over => Out(cid, inp, Obs)

(* ---- what a user relies on ---- *)
OnceInOrder == \A i, j \in 1..Len(all) : i < j => all[i].b[1] < all[j].b[1]
Complete == Over => { all[k].b[1] : k \in 1..Len(all) } = { n \in 0..(Len(S) - 1) : Exists(S, n) /\ IsBase(S, n) }
\* No child segment belongs to two records.
Disjoint == \A i, j \in 1..Len(all) : i # j => { all[i].m[k] : k \in 1..Len(all[i].m) } \cap { all[j].m[k] : k \in 1..Len(all[j].m) } = {}
\* A lookup through a child gives the record the enumeration attaches it to.
LookupAgrees == Over => \A n \in 0..(Len(S) - 1) : LET r == ByNumber(S, n, -1, TRUE) IN r # <<>> => \E k \in 1..Len(all) : all[k].m = r /\ n \in { r[x] : x \in 1..Len(r) }
=============================================================================

------------------------------ MODULE Lookup -------------------------------
(* Finding the allocated file with a given path: the names matching the last component    *)
(* give a set of (candidate, parent) pairs, which is narrowed by one component at a time.   *)
EXTENDS Emit, Mft, FiniteSets

CONSTANTS Scope

VARIABLES cid, inp, qi, todo, front, st, res
vars == <<cid, inp, qi, todo, front, st, res>>

S == inp.segs
Sg(v, u, q, d, n) == [v |-> v, use |-> u, dir |-> d, seq |-> q, bn |-> 0, bs |-> 0, names |-> n]
Plain == Sg(TRUE, 1, 1, 0, <<>>)
N(c, p) == [fl |-> 1, pn |-> p[1], ps |-> p[2], nm |-> <<c>>]
RootSeg == Sg(TRUE, 1, 5, 1, << N(46, <<5, 5>>) >>)
SlashA == <<47, 97>>
Qs == << [p |-> SlashA, cs |-> TRUE], [p |-> SlashA, cs |-> FALSE], [p |-> <<47, 97, 47, 98>>, cs |-> TRUE], [p |-> <<47, 65, 47, 65>>, cs |-> FALSE], [p |-> <<47, 97, 47>>, cs |-> FALSE],
         [p |-> <<47, 98, 47, 97, 47, 97>>, cs |-> FALSE], [p |-> <<47, 98, 47, 65, 47, 97>>, cs |-> TRUE], [p |-> <<47, 97, 47, 98, 47, 97>>, cs |-> FALSE] >>
P4 == {<<5, 5>>, <<6, 1>>, <<6, 2>>, <<7, 1>>}
Seg4 == { Sg(TRUE, ud[1], 2 - ud[1], ud[2], n) : ud \in {<<1, 0>>, <<1, 1>>, <<0, 0>>}, n \in { <<N(c, p)>> : c \in {97, 98}, p \in P4 } \cup { <<N(97, p), N(97, q)>> : p \in P4, q \in P4 } \cup { <<N(98, p), N(97, q)>> : p \in P4, q \in P4 } }
Seg6 == {Sg(FALSE, 1, 1, 1, <<>>)} \cup { Sg(TRUE, uq[1], uq[2], 1, <<N(c, p)>>) : uq \in {<<1, 1>>, <<0, 2>>}, c \in {97, 98}, p \in {<<5, 5>>, <<7, 1>>} }
Seg7 == { Sg(TRUE, 1, 1, d, <<N(65, p)>>) : d \in {0, 1}, p \in {<<5, 5>>, <<6, 1>>} } \cup {Sg(TRUE, 1, 1, 1, <<N(97, <<5, 5>>), N(98, <<6, 1>>)>>)}
Small == Scope # "none" /\ \E a \in Seg4, b \in Seg6, c \in Seg7 : inp = [segs |-> <<Plain, Plain, Plain, Plain, a, RootSeg, b, c>>, q |-> Qs]
\* Directories in directories, some of them in an earlier directory with the same number.
Deep == { <<47, a>> : a \in {97, 98} } \cup { <<47, a, 47, b>> : a, b \in {97, 98} } \cup { <<47, a, 47, b, 47, c>> : a, b, c \in {97, 98} }
RECURSIVE Listed(_)
Listed(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE y \in T : TRUE IN <<[p |-> x, cs |-> TRUE]>> \o Listed(T \ {x})
InDir == { Sg(TRUE, 1, 1, 1, <<N(c, p)>>) : c \in {97, 98}, p \in {<<5, 5>>, <<6, 1>>, <<6, 2>>, <<7, 1>>, <<8, 1>>} }
Small2 == Scope # "none" /\ \E a \in {97, 98}, b, c, d \in InDir : (Scope = "quick" => a = 97) /\ inp = [segs |-> <<Plain, Plain, Plain, Plain, Plain, RootSeg, Sg(TRUE, 1, 2, 1, <<N(a, <<5, 5>>)>>), b, c, d>>, q |-> Listed(Deep)]

Init ==
  /\ \/ cid = 0 /\ (Small \/ Small2)
     \/ cid \in 1..Len(Cases) /\ inp = Cases[cid]
  /\ qi = 1 /\ todo = <<>> /\ front = {} /\ st = "idle" /\ res = <<>>

(* ---- names ---- *)
Up(c) == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE IF c >= 1072 /\ c <= 1103 THEN c - 32 ELSE IF c = 233 THEN 201 ELSE c
UpS(n) == [k \in 1..Len(n) |-> Up(n[k])]
Same(a, b, cs) == IF cs THEN a = b ELSE UpS(a) = UpS(b)

(* ---- paths ---- *)
RECURSIVE Split(_, _)
Split(p, acc) == IF p = <<>> THEN <<acc>> ELSE IF p[1] = 47 THEN <<acc>> \o Split(SubSeq(p, 2, Len(p)), <<>>) ELSE Split(SubSeq(p, 2, Len(p)), Append(acc, p[1]))
Q == inp.q[qi]
DirOnly == Len(Q.p) > 1 /\ Q.p[Len(Q.p)] = 47
Trim == IF DirOnly THEN SubSeq(Q.p, 1, Len(Q.p) - 1) ELSE Q.p
Parts == LET s == Split(Trim, <<>>) IN SubSeq(s, 2, Len(s))     \* without the empty part before the first separator
Malformed == \/ Q.p = <<>> \/ Q.p[1] # 47 \/ Q.p = <<47, 47>>
Reserved == { <<>>, <<46>>, <<46, 46>> }

Match(n, c) == LET nn == NamesOf(S, Assembly(S, n)) IN { <<nn[k].pn, nn[k].ps>> : k \in { j \in 1..Len(nn) : Same(nn[j].nm, c, Q.cs) } }
Cands(c) == UNION { { <<n, r[1], r[2]>> : r \in Match(n, c) } : n \in { m \in 0..(Len(S) - 1) : Exists(S, m) /\ IsBase(S, m) /\ Seg(S, m).use = 1 /\ (DirOnly => Seg(S, m).dir = 1) } }

Answer(s, ok) == /\ res' = Append(res, [s |-> s, ok |-> ok]) /\ qi' = qi + 1 /\ st' = "idle" /\ front' = {} /\ todo' = <<>> /\ UNCHANGED <<cid, inp>>
Ask ==
  /\ st = "idle" /\ qi <= Len(inp.q)
  /\ IF Malformed THEN Answer("err", {})
     ELSE IF Trim = <<47>> THEN (IF ByNumber(S, Root, -1, TRUE) = <<>> THEN Answer("err", {}) ELSE Answer("root", {Root}))
     ELSE IF \E k \in 1..(Len(Parts) - 1) : Parts[k] \in Reserved THEN Answer("err", {})
     ELSE /\ todo' = SubSeq(Parts, 1, Len(Parts) - 1)
          /\ front' = Cands(Parts[Len(Parts)])
          /\ st' = "up"
          /\ UNCHANGED <<cid, inp, qi, res>>
Up1 ==
  /\ st = "up" /\ todo # <<>>
  /\ front' = UNION { IF f[2] = Root \/ ByNumber(S, f[2], f[3], FALSE) = <<>> THEN {} ELSE { <<f[1], r[1], r[2]>> : r \in Match(f[2], todo[Len(todo)]) } : f \in front }
  /\ todo' = SubSeq(todo, 1, Len(todo) - 1)
  /\ UNCHANGED <<cid, inp, qi, st, res>>
Reach ==
  /\ st = "up" /\ todo = <<>>
  /\ LET ok == { f[1] : f \in { g \in front : g[2] = Root } } IN Answer(IF ok = {} THEN "none" ELSE "some", ok)

Over == qi = Len(inp.q) + 1
Done == Over /\ UNCHANGED vars
Next == Ask \/ Up1 \/ Reach \/ Done
Spec == Init /\ [][Next]_vars
Obs == [st |-> "ok", r |-> res]
Report == Over => Out(cid, inp, Obs)

(* ---- what a user relies on ---- *)
OnlyAllocated == \A k \in 1..Len(res) : res[k].s = "some" => \A n \in res[k].ok : Seg(S, n).use = 1
\* A case-sensitive hit is also a hit without case.
Weaker == Over => \A i, j \in 1..Len(res) : inp.q[i].p = inp.q[j].p /\ inp.q[i].cs /\ ~inp.q[j].cs => res[i].ok \subseteq res[j].ok
=============================================================================

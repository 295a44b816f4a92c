------------------------------- MODULE Paths -------------------------------
(* Full paths: for every file record and every one of its names, the chain of parents is  *)
(* followed up to the root or to the point where it is lost.                                *)
EXTENDS Emit, Mft, FiniteSets

CONSTANTS Scope

VARIABLES cid, inp, rec, todo, comps, ref, track, out, res
vars == <<cid, inp, rec, todo, comps, ref, track, out, res>>

S == inp.segs
Sg(v, u, q, d, n) == [v |-> v, use |-> u, dir |-> d, seq |-> q, bn |-> 0, bs |-> 0, names |-> n]
Plain == Sg(TRUE, 1, 1, 0, <<>>)
Nm(k, j, fl, p) == [fl |-> fl, pn |-> p[1], ps |-> p[2], nm |-> <<64 + k, 96 + j>>]
RootSeg == Sg(TRUE, 1, 5, 1, << [fl |-> 3, pn |-> 5, ps |-> 5, nm |-> <<46>>] >>)
UQ == {<<1, 1>>, <<0, 2>>}
Targets == {<<5, 5>>, <<4, 1>>, <<6, 1>>, <<6, 2>>, <<7, 1>>}
One(k) == {Sg(FALSE, 1, 1, 1, <<>>)} \cup { Sg(TRUE, uq[1], uq[2], d, n) : uq \in UQ, d \in {0, 1}, n \in {<<>>} \cup { <<Nm(k, 1, 1, p)>> : p \in Targets } }
\* Several names: every combination of name spaces and parents.
Many(k) == { Sg(TRUE, 1, 1, 1, <<Nm(k, 1, f, p), Nm(k, 2, g, q)>>) : f \in 0..3, g \in 0..3, p \in {<<5, 5>>, <<6, 1>>, <<7, 1>>}, q \in {<<5, 5>>, <<6, 1>>, <<9, 1>>} }
           \cup { Sg(TRUE, 1, 1, 1, <<Nm(k, 1, 2, <<5, 5>>), Nm(k, 2, g, <<6, 1>>), Nm(k, 3, h, <<5, 5>>)>>) : g \in 0..3, h \in 0..3 }
Frame(a, b, c) == inp = [only |-> <<>>, segs |-> <<Plain, Plain, Plain, Plain, a, RootSeg, b, c>>]
Small == \/ Scope # "none" /\ \E a \in One(4), b \in One(6), c \in One(7) : (Scope = "thorough" \/ a.v) /\ Frame(a, b, c)
         \/ Scope # "none" /\ \E a \in One(4), b \in Many(6), c \in (IF Scope = "thorough" THEN One(7) ELSE {Sg(TRUE, 1, 1, 1, <<Nm(7, 1, 1, <<6, 1>>)>>)}) : Frame(a, b, c)

\* The paths of which records are asked for: all, or some of a very large table.
Asked(n) == Exists(S, n) /\ IsBase(S, n) /\ (inp.only = <<>> \/ \E k \in 1..Len(inp.only) : inp.only[k] = n)
Preferred(n) == n.fl \in {0, 1, 3}
NamesOfRec(n) == NamesOf(S, Assembly(S, n))

Init ==
  /\ \/ cid = 0 /\ Small
     \/ cid \in 1..Len(Cases) /\ inp = Cases[cid]
  /\ rec = -1 /\ todo = <<>> /\ comps = <<>> /\ ref = <<>> /\ track = {} /\ out = <<>> /\ res = <<>>

\* Next file record.
NextRecord ==
  /\ rec < Len(S) /\ todo = <<>> /\ comps = <<>>
  /\ rec' = rec + 1
  /\ res' = IF rec >= 0 /\ Asked(rec) THEN Append(res, [n |-> rec, p |-> out]) ELSE res
  /\ out' = <<>>
  /\ todo' = IF rec' < Len(S) /\ Asked(rec') THEN NamesOfRec(rec') ELSE <<>>
  /\ UNCHANGED <<cid, inp, comps, ref, track>>
NextName ==
  /\ todo # <<>> /\ comps = <<>>
  /\ comps' = <<todo[1].nm>> /\ ref' = <<todo[1].pn, todo[1].ps>> /\ track' = {}
  /\ UNCHANGED <<cid, inp, rec, todo, out, res>>

Emitted(top) == /\ out' = Append(out, [pref |-> Preferred(todo[1]), path |-> <<top>> \o comps])
                /\ todo' = SubSeq(todo, 2, Len(todo)) /\ comps' = <<>>
                /\ UNCHANGED <<cid, inp, rec, ref, track, res>>
Lost == <<60, 79, 62>>          \* stands for the orphan placeholder
Best(names) == LET p == SelectSeq(names, Preferred) IN IF p # <<>> THEN p[1] ELSE names[1]
Follow ==
  /\ comps # <<>>
  /\ IF ref[1] = Root THEN Emitted(<<>>)
     ELSE IF ref[1] \in track THEN Emitted(Lost)
     ELSE LET a == ByNumber(S, ref[1], ref[2], FALSE) IN
          IF a = <<>> THEN Emitted(Lost)
          ELSE IF Seg(S, ref[1]).dir = 0 THEN Emitted(Lost)
          ELSE IF NamesOf(S, a) = <<>> THEN Emitted(Lost)
          ELSE LET b == Best(NamesOf(S, a)) IN
               /\ comps' = <<b.nm>> \o comps
               /\ ref' = <<b.pn, b.ps>>
               /\ track' = track \cup {ref[1]}
               /\ UNCHANGED <<cid, inp, rec, todo, out, res>>

Over == rec = Len(S)
Done == Over /\ UNCHANGED vars
Next == NextRecord \/ NextName \/ Follow \/ Done
Spec == Init /\ [][Next]_vars

Obs == [st |-> "ok", r |-> res]
Report == Over => Out(cid, inp, Obs)

(* ---- what a user relies on ---- *)
\* The chain never visits a directory twice, so it is no longer than the table.
Bounded == Len(comps) <= Len(S) + 1 /\ Cardinality(track) <= Len(S)
OnePerName == \A k \in 1..Len(res) : Len(res[k].p) = Len(NamesOfRec(res[k].n))
Anchored == \A k \in 1..Len(out) : out[k].path[1] \in {<<>>, Lost}
=============================================================================

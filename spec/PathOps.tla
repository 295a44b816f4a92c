------------------------------ MODULE PathOps ------------------------------
(* What Paths requires of full paths, as operators for the reports.                           *)
EXTENDS Mft

Lost == <<60, 79, 62>>           \* stands for the orphan placeholder
Unknown == <<60, 85, 62>>        \* stands for an unknown directory
Preferred(n) == n.fl \in {0, 1, 3}
Best(names) == LET p == SelectSeq(names, Preferred) IN IF p # <<>> THEN p[1] ELSE names[1]
RECURSIVE Up(_, _, _, _)
Up(S, ref, comps, track) ==
  IF ref[1] = Root THEN <<<<>>>> \o comps
  ELSE IF ref[1] \in track THEN <<Lost>> \o comps
  ELSE LET a == ByNumber(S, ref[1], ref[2], FALSE) IN
       IF a = <<>> THEN <<Lost>> \o comps
       ELSE IF Seg(S, ref[1]).dir = 0 \/ NamesOf(S, a) = <<>> THEN <<Lost>> \o comps
       ELSE LET b == Best(NamesOf(S, a)) IN Up(S, <<b.pn, b.ps>>, <<b.nm>> \o comps, track \cup {ref[1]})
PathOf(S, n) == Up(S, <<n.pn, n.ps>>, <<n.nm>>, {})
Ordered(names) == SelectSeq(names, Preferred) \o SelectSeq(names, LAMBDA n : ~Preferred(n))
\* The first path of a record given as its assembly; <<>> if there is none.
FirstOf(S, a) == IF a = <<>> THEN <<>> ELSE LET N == NamesOf(S, a) IN IF N = <<>> THEN <<>> ELSE PathOf(S, Ordered(N)[1])
\* A directory as the beginning of a path: the root is written as nothing.
AsDir(p) == IF p = <<>> THEN <<Unknown>> ELSE IF p = <<<<>>, <<46>>>> THEN <<<<>>>> ELSE p
=============================================================================

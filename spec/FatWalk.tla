------------------------------ MODULE FatWalk ------------------------------
(* Walking a FAT volume. Directories are chains of clusters holding entries, and entries name  *)
(* the first cluster of other directories: a graph that damage can turn into anything. The      *)
(* walk goes depth first and never enters a directory it is already in. A deleted directory has  *)
(* lost its chain: its first cluster is read if it is still free and still a directory, and the  *)
(* cluster after it if it seems to continue the first.                                          *)
EXTENDS Emit, Bytes, FiniteSets, TLC

CONSTANTS Scope, Family

VARIABLES cid, inp, stk, reall, seen, orph, out
vars == <<cid, inp, stk, reall, seen, orph, out>>
\* inp   [t type, last the last cluster, root cluster (32) or 0, rents the slots of the root (12, 16), cl pairs <<cluster, slots>>, fat pairs <<cluster, link>>, all: scan reallocated directories too, sp sectors per cluster, rs sectors of the root (12, 16)]
\*       a slot: [k, n name, l long name, c first cluster, d deleted]; kinds: file dir vol dot dotdot, x (nothing valid), lfn (part of the name of the next), orph (part of no name), null
\* stk   the directories being read, innermost first: [path, q its clusters (-9: the root of 12 and 16), i the slot that is next, up the directories above and itself, null]
\* reall deleted directories whose first cluster is in use   seen  those entered   orph  reallocated ones to be looked at, or <<>> before that
Cells == 16 * inp.sp
E(k, n, l, c, d) == [k |-> k, n |-> n, l |-> l, c |-> c, d |-> d]
File(n) == E("file", n, "", 0, FALSE)
Dir(n, c) == E("dir", n, "", c, FALSE)
DelDir(n, c) == E("dir", n, "", c, TRUE)
DotE(c) == E("dot", ".", "", c, FALSE)
DotDotE(c) == E("dotdot", "..", "", c, FALSE)
XE == E("x", "", "", 0, FALSE)
NullE == E("null", "", "", 0, FALSE)
Eoc == CASE inp.t = 32 -> 268435448 [] inp.t = 16 -> 65528 [] inp.t = 12 -> 4088

(* ---- what the volume holds ---- *)
Pick(pairs, c, d) == LET S == { i \in 1..Len(pairs) : pairs[i][1] = c } IN IF S = {} THEN d ELSE pairs[CHOOSE i \in S : TRUE][2]
PadTo(n, s, e) == s \o [i \in 1..(n - Len(s)) |-> e]
Pad(s, e) == PadTo(Cells, s, e)
Slots(c) == IF c = 0 THEN Pad(<<>>, NullE) ELSE LET s == Pick(inp.cl, c, <<>>) IN IF \E i \in 1..Len(inp.cl) : inp.cl[i][1] = c THEN Pad(s, NullE) ELSE Pad(<<>>, XE)
Link(c) == IF c < 2 THEN Eoc ELSE Pick(inp.fat, c, 0)
Valid(c) == c <= inp.last
Alloc(c) == Link(c) # 0
Members(q) == { q[i] : i \in 1..Len(q) }
RECURSIVE Follow(_)
\* The chain from here on (a bad cluster: 0), or <<-1>> if it leaves the volume.
Follow(q) == LET c == q[Len(q)] l == Link(q[Len(q)]) IN
  IF ~Valid(c) THEN <<-1>>
  ELSE IF l \in Members(q) \/ l >= Eoc \/ l \in {0, 1} THEN q
  ELSE IF l = Eoc - 1 THEN Append(q, 0)
  ELSE Follow(Append(q, l))
Chain(c) == IF c \in {0, 1} THEN <<>> ELSE IF c = Eoc - 1 THEN <<-1>> ELSE Follow(<<c>>)
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN <<>> ELSE Slots(q[1]) \o Join(SubSeq(q, 2, Len(q)))
IsNull(e) == e.k = "null"
\* Does the cluster b seem to continue a?
Continues(a, b) == /\ \A i \in (Len(a) - 2)..Len(a) : ~IsNull(a[i])
                   /\ ~IsNull(b[1]) /\ b[2].k # "dotdot"

(* ---- inputs that are enumerated ---- *)
Rooms == { <<DotE(2), DotDotE(0), x>> : x \in {File("F"), Dir("S", 2), Dir("S", 3), Dir("S", 4), DelDir("_S", 3), Dir("S", 99), Dir("S", 0), Dir("S", 1)} } \cup { <<File("G")>>, <<NullE, File("H"), Dir("S", 3)>> }
Full(s) == PadTo(16, s, XE)
Roots == { <<Dir("A", 2)>>, <<DelDir("_A", 2)>>, <<Dir("A", 2), Dir("B", 3)>>, <<Dir("A", 2), DelDir("_B", 3)>>, <<DelDir("_A", 2), Dir("B", 2)>>, <<DelDir("_A", 2), DelDir("_B", 3)>>, <<DelDir("_A", 3), File("F"), Dir("B", 2)>>, <<NullE, Dir("A", 2)>> }
LinksA == {0, 3, 4095, 4087}
Make(r, a, b, x, y, all) == [t |-> 12, last |-> 9, root |-> 0, rents |-> r, cl |-> <<<<2, a>>, <<3, b>>>>, fat |-> <<<<2, x>>, <<3, y>>>>, all |-> all, sp |-> 1, rs |-> 1]
Small == CASE Scope = "none" -> FALSE
           [] Family = "graph" -> \E r \in Roots, a \in Rooms, b \in Rooms, x \in LinksA, y \in {0, 2, 4095}, all \in BOOLEAN :
                                    /\ (Scope = "quick" => (x \in {0, 4095} \/ y = 4095) /\ (all => x = 4095))
                                    /\ inp = Make(r, a, b, x, y, all)
           [] Family = "extra" -> \E a \in Rooms, b \in Rooms, f \in BOOLEAN, y \in {0, 4095}, all \in BOOLEAN : inp = Make(<<DelDir("_A", 2)>>, IF f THEN Full(a) ELSE a, b, 0, y, all)
           [] Family = "root32" -> \E r \in Roots, a \in Rooms, x \in {0, 268435455}, l \in {5, 2, 268435455, 0, 99}, all \in BOOLEAN :
                                    inp = [t |-> 32, last |-> 200, root |-> 4, rents |-> <<>>, cl |-> <<<<4, r>>, <<5, <<Dir("E", 4), File("Z"), Dir("C", 5)>>>>, <<2, a>>, <<3, <<File("Y")>>>>>>, fat |-> <<<<2, x>>, <<4, l>>, <<5, 268435448>>>>, all |-> all, sp |-> 1, rs |-> 1]

Frame(p, q, up) == [path |-> p, q |-> q, i |-> 1, up |-> up, null |-> FALSE]
Init == /\ (cid = 0 /\ Small) \/ (cid \in 1..Len(Cases) /\ inp = Cases[cid])
        /\ stk = IF inp.t = 32 THEN IF Chain(inp.root) \in {<<-1>>, <<>>} THEN <<>> ELSE <<Frame(<<>>, Chain(inp.root), {inp.root})>> ELSE <<Frame(<<>>, <<-9>>, {})>>
        /\ reall = {} /\ seen = (IF inp.t = 32 THEN {inp.root} ELSE {}) /\ orph = <<>> /\ out = <<>>

Refused == inp.t = 32 /\ Chain(inp.root) \in {<<-1>>, <<>>}
Top == stk[1]
\* The slots of the cluster that is being read (of the root), those that are written; what follows them in the cluster; where in it we are.
Here == IF Top.q = <<-9>> THEN inp.rents ELSE LET c == Top.q[((Top.i - 1) \div Cells) + 1] IN IF c = 0 THEN <<>> ELSE Pick(inp.cl, c, <<>>)
Fill == IF Top.q = <<-9>> THEN NullE ELSE LET c == Top.q[((Top.i - 1) \div Cells) + 1] IN IF c = 0 \/ \E i \in 1..Len(inp.cl) : inp.cl[i][1] = c THEN NullE ELSE XE
At == IF Top.q = <<-9>> THEN Top.i ELSE ((Top.i - 1) % Cells) + 1
Size == IF Top.q = <<-9>> THEN 16 * inp.rs ELSE Cells
Cur == IF At <= Len(Here) THEN Here[At] ELSE Fill
AtEnd == Top.i > (IF Top.q = <<-9>> THEN 16 * inp.rs ELSE Cells * Len(Top.q))
\* One slot on; where nothing is written, to the end of the cluster.
Rest == [Top EXCEPT !.i = @ + (IF At <= Len(Here) THEN 1 ELSE (Size + 1) - At), !.null = @ \/ IsNull(Cur)]
Status(e) == IF e.d THEN "yes" ELSE IF Top.null THEN "unknown" ELSE "no"
Shown(e) == [p |-> Top.path, n |-> e.n, l |-> e.l, c |-> e.c, d |-> Status(e), dir |-> e.k \in {"dir", "dot", "dotdot"}, o |-> FALSE]
Lost(e) == [p |-> Top.path, n |-> "", l |-> e.n, c |-> 0, d |-> "", dir |-> FALSE, o |-> TRUE]
Name(e) == IF e.l = "" THEN e.n ELSE e.l
Above(e) == IF e.c = 0 THEN Top.up ELSE Top.up \cup {e.c}
\* The clusters of a directory, or <<>>: it is not entered.
Content(e) ==
  LET q == Chain(e.c) b == Slots(q[1]) IN
  IF q \in {<<>>, <<-1>>} THEN <<>>
  ELSE IF ~inp.all /\ e.d /\ b[2].k # "dotdot" THEN <<>>
  ELSE IF e.d /\ Len(q) = 1 /\ Valid(e.c + 1) /\ ~Alloc(e.c + 1) /\ Continues(b, Slots(e.c + 1)) THEN <<e.c, e.c + 1>>
  ELSE q
Go(frames) == stk' = frames
Read ==
  /\ stk # <<>> /\ ~AtEnd
  /\ LET e == Cur
         on == <<Rest>> \o SubSeq(stk, 2, Len(stk))
     IN IF e.k \in {"x", "null", "lfn"} THEN Go(on) /\ UNCHANGED <<reall, seen, out>>
        ELSE IF e.k = "orph" THEN Go(on) /\ out' = Append(out, Lost(e)) /\ UNCHANGED <<reall, seen>>
        ELSE IF e.k # "dir" THEN Go(on) /\ out' = Append(out, Shown(e)) /\ UNCHANGED <<reall, seen>>
        ELSE IF e.c # 0 /\ e.c \in Top.up THEN Go(on) /\ UNCHANGED <<reall, seen, out>>              \* a way back up
        ELSE /\ out' = Append(out, Shown(e))
             /\ IF ~Valid(e.c) THEN Go(on) /\ UNCHANGED <<reall, seen>>
                ELSE IF ~inp.all /\ e.d /\ Alloc(e.c) THEN Go(on) /\ reall' = reall \cup {e.c} /\ UNCHANGED seen
                ELSE /\ seen' = seen \cup {e.c} /\ UNCHANGED reall
                     /\ IF Content(e) = <<>> THEN Go(on) ELSE Go(<<Frame(Top.path \o <<Name(e)>>, Content(e), Above(e))>> \o on)
  /\ UNCHANGED <<cid, inp, orph>>
Return == stk # <<>> /\ AtEnd /\ stk' = SubSeq(stk, 2, Len(stk)) /\ UNCHANGED <<cid, inp, reall, seen, orph, out>>
\* Reallocated directories that were not met otherwise: what is there now is reported, but not as theirs.
RECURSIVE Ordered(_)
Ordered(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Ordered(S \ {m})
Collect == stk = <<>> /\ orph = <<>> /\ ~Refused /\ orph' = Append(Ordered(reall \ seen), -9) /\ UNCHANGED <<cid, inp, stk, reall, seen, out>>
Still(c) == LET q == Chain(c) IN q \notin {<<>>, <<-1>>} /\ Slots(q[1])[1].k = "dot" /\ Slots(q[1])[2].k = "dotdot"
Revisit == /\ stk = <<>> /\ orph # <<>> /\ orph[1] # -9
           /\ stk' = IF Still(orph[1]) THEN <<Frame(<<"<Orphan directory " \o ToString(orph[1]) \o ">">>, Chain(orph[1]), {})>> ELSE <<>>
           /\ orph' = SubSeq(orph, 2, Len(orph)) /\ UNCHANGED <<cid, inp, reall, seen, out>>
Over == stk = <<>> /\ (Refused \/ orph = <<-9>>)
Done == Over /\ UNCHANGED vars
Next == Read \/ Return \/ Collect \/ Revisit \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Obs == [st |-> IF Refused THEN "rejected" ELSE "ok", out |-> out]
Report == Over => Out(cid, inp, Obs)

(* ---- what a user relies on ---- *)
Ends == <>(stk = <<>> /\ (Refused \/ orph = <<-9>>))
\* Never deeper than there are clusters.
Depth == Len(stk) <= inp.last + 2
\* Nothing of a directory in use is attributed to a deleted one, unless that is asked for.
\* (Looked at when an entry comes out: what came out before was looked at then.)
Honest == (~inp.all /\ out # <<>>) => \A i \in {Len(out)} : ~ \E j \in 1..Len(out) : j < i /\ out[j].dir /\ out[j].d = "yes" /\ out[j].n \notin {".", ".."} /\ Alloc(out[j].c) /\ Valid(out[j].c)
                                                   /\ out[i].p = out[j].p \o <<IF out[j].l = "" THEN out[j].n ELSE out[j].l>>
                                                   /\ ~ \E k \in 1..Len(out) : k # j /\ k < i /\ out[k].p = out[j].p /\ out[k].n = out[j].n /\ out[k].l = out[j].l
\* All of an intact directory below the root is there.
Complete == (Over /\ ~Refused /\ inp.t = 12) => \A i \in 1..Len(inp.rents) : LET e == inp.rents[i] IN
              (e.k = "dir" /\ ~e.d /\ e.c \in 2..inp.last /\ Chain(e.c) # <<-1>>) =>
                \A j \in 1..Len(Join(Chain(e.c))) : LET f == Join(Chain(e.c))[j] IN f.k = "file" => \E k \in 1..Len(out) : out[k].n = f.n /\ out[k].p = <<Name(e)>>
=============================================================================

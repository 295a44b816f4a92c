----------------------------- MODULE ExfatWalk -----------------------------
(* Walking an exFAT volume. A directory entry names the first cluster of a directory, its size,  *)
(* and whether its clusters are consecutive or linked: a graph that damage can turn into anything. *)
(* The walk goes depth first and never enters a directory it is in. A deleted directory is entered *)
(* if its first cluster is free; if it is in use, what is there now is not its own, but if it       *)
(* still begins with deleted files and nothing else leads there, it is shown as an orphan.          *)
EXTENDS Emit, Bytes, FiniteSets, TLC

CONSTANTS Scope, Family

VARIABLES cid, inp, stk, reall, seen, orph, out
vars == <<cid, inp, stk, reall, seen, orph, out>>
\* inp   [last the last cluster, root, cl pairs <<cluster, entries>>, fat pairs <<cluster, link>> (signed), used clusters in use, all: scan reallocated directories too, vs sectors of the volume or -1, sp sectors per cluster]
\*       an entry: [k, n name, c first cluster, s size, nf consecutive, d deleted, mt when modified (0: no valid date)]; kinds: file dir lost label x end stop h5 h4 (the first two of a deleted set that is incomplete), cont (the rest of the last entry of the cluster before, in a chain that is intact)
\* stk   the directories being read, innermost first: [path, q its clusters, j which of them, i the entry in it that is next, up the directories above and itself]
\* reall deleted directories whose first cluster is in use: [c, mt, s, nf]   seen  those entered   orph  those to be looked at again, or <<>> before that
Eoc == -1
Bad == -9
E(k, n, c, s, nf, d, mt) == [k |-> k, n |-> n, c |-> c, s |-> s, nf |-> nf, d |-> d, mt |-> mt]
File(n) == E("file", n, 0, 5, FALSE, FALSE, 1)
Gone(n) == E("file", n, 0, 5, FALSE, TRUE, 1)
Dir(n, c) == E("dir", n, c, 512, FALSE, FALSE, 1)
Dir2(n, c, s, nf) == E("dir", n, c, s, nf, FALSE, 1)
DelDir(n, c) == E("dir", n, c, 512, FALSE, TRUE, 1)
DelDir2(n, c, s, nf, mt) == E("dir", n, c, s, nf, TRUE, mt)
X == E("x", "", 0, 0, FALSE, FALSE, 0)
EndE == E("end", "", 0, 0, FALSE, FALSE, 0)
StopE == E("stop", "", 0, 0, FALSE, FALSE, 0)
Lab == E("label", "VOL", 0, 0, FALSE, FALSE, 0)
LostE(n) == E("lost", n, 0, 0, FALSE, FALSE, 0)

(* ---- what the volume holds ---- *)
Has(pairs, c) == \E i \in 1..Len(pairs) : pairs[i][1] = c
Pick(pairs, c, d) == IF Has(pairs, c) THEN pairs[CHOOSE i \in 1..Len(pairs) : pairs[i][1] = c][2] ELSE d
MapE == E("map", "", 0, 0, FALSE, FALSE, 0)
\* The root directory begins with the entry of the bitmap, which no other directory may have.
Held(c) == IF c = 0 THEN <<EndE>> ELSE IF c = inp.root THEN <<MapE>> \o Pick(inp.cl, c, <<X>>) ELSE Pick(inp.cl, c, <<>>) \o <<X>>
Link(c) == Pick(inp.fat, c, 0)
Valid(c) == c >= 2 /\ c <= inp.last
InUse(c) == \E i \in 1..Len(inp.used) : inp.used[i] = c
Members(q) == { q[i] : i \in 1..Len(q) }
RECURSIVE Follow(_)
Follow(q) == LET c == q[Len(q)] IN
  IF ~Valid(c) THEN <<-1>>
  ELSE LET l == Link(c) IN
       IF l \in Members(q) \/ l \in {Eoc, 0, 1} THEN q
       ELSE IF l = Bad THEN Append(q, 0)
       ELSE Follow(Append(q, l))
CB == 512 * inp.sp
Up(n) == (n + CB - 1) \div CB
Chain(c) == IF c \in {0, 1} THEN <<>> ELSE IF c = Bad THEN <<-1>> ELSE Follow(<<c>>)
Run(c, n) == IF n = 0 \/ c < 2 THEN <<>> ELSE [i \in 1..Max(0, Min(Up(n), inp.last + 1 - c)) |-> c + i - 1]
Beyond(q) == inp.vs >= 0 /\ \E i \in 1..Len(q) : q[i] # 0 /\ (64 + (inp.sp * (q[i] - 1))) > inp.vs
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN <<>> ELSE Held(q[1]) \o Join(SubSeq(q, 2, Len(q)))
\* The clusters of a directory (n bytes, -1: all; several clusters or no whole number of sectors), or <<>>: there is nothing to be read.
Content(c, n, nf) ==
  LET q0 == IF nf THEN Run(c, n) ELSE Chain(c)
      q == IF n >= 0 /\ q0 # <<-1>> THEN SubSeq(q0, 1, Min(Len(q0), Up(n))) ELSE q0
      size == IF n >= 0 THEN Min(n, CB * Len(q)) ELSE CB * Len(q)
  IN IF q \in {<<>>, <<-1>>} \/ Beyond(q) \/ size = 0 \/ size % 512 # 0 THEN <<>> ELSE q

(* ---- inputs that are enumerated ---- *)
Rooms == { <<x>> : x \in {File("F"), Gone("G"), Dir("S", 2), Dir("S", 3), Dir("S", 5), DelDir("S", 3), DelDir("S", 2), Dir("S", 9999), Dir("S", 0), Dir("S", 1), StopE, LostE("L")} }
      \cup { <<Gone("G"), Dir("S", 3)>>, <<EndE, File("H")>>, <<Gone("G"), DelDir("T", 3), StopE, File("H")>>, <<X, Dir("S", 2), Dir("T", 3), Dir("S", 2)>> }
Roots == { <<Dir("A", 2)>>, <<DelDir("A", 2)>>, <<Dir("A", 2), Dir("B", 3)>>, <<Dir("A", 2), DelDir("B", 3)>>, <<DelDir("A", 2), Dir("B", 2)>>, <<DelDir("A", 2), DelDir("B", 3)>>, <<DelDir("A", 3), File("F"), Lab, Dir("B", 2)>>, <<Dir("A", 5), File("F")>>, <<EndE, Dir("A", 2)>> }
Make(r, a, b, f, u, all) == [last |-> 1901, root |-> 5, cl |-> <<<<5, r>>, <<2, a>>, <<3, b>>>>, fat |-> <<<<5, -1>>>> \o f, used |-> <<5, 6>> \o u, all |-> all, vs |-> -1, sp |-> 1]
Fats == { <<>>, <<<<2, -1>>, <<3, -1>>>>, <<<<2, 3>>, <<3, 2>>>> }
Uses == { <<>>, <<2>>, <<3>>, <<2, 3>> }
Sizes == {0, 512, 1024, 700, 1536, 2048}
Small == CASE Scope = "none" -> FALSE
           [] Family = "graph" -> \E r \in Roots, a, b \in Rooms, f \in Fats, u \in Uses, all \in BOOLEAN : (Scope = "quick" => ~all \/ u = <<2, 3>>) /\ (Scope = "quick" => f # <<>> \/ u \in {<<>>, <<2, 3>>}) /\ inp = Make(r, a, b, f, u, all)
           \* How much of a directory is read.
           [] Family = "sizes" -> \E s \in Sizes, nf, d, all \in BOOLEAN, l2, l3 \in {0, 1, 2, 3, 4, -1, -9, -2, 1902}, u \in Uses, v \in {-1, 2048} :
                                    /\ (Scope = "quick" => (v = -1) /\ (l3 \in {0, 2, 4, -1, -9, 1902}) /\ u \in {<<>>, <<2, 3>>})
                                    /\ inp = [Make(<<E("dir", "A", 2, s, nf, d, 1)>>, <<Gone("F"), File("G")>>, <<File("H"), Dir("B", 4)>>, <<<<2, l2>>, <<3, l3>>>>, u, all) EXCEPT !.vs = v, !.cl = Append(@, <<4, <<File("I")>>>>)]
           \* The newest of several deleted directories tells the size of what is left of them.
           [] Family = "orphans" -> \E m1, m2, m3 \in 0..3, s1, s2 \in {512, 1024, 700}, n1, n2 \in BOOLEAN, first \in {Gone("F"), File("F"), X, E("h5", "", 0, 0, FALSE, FALSE, 0)} :
                                    /\ (Scope = "quick" => m3 \in {0, 2} /\ first.k \in {"file", "h5"} /\ (s1 # s2 \/ n1 # n2))
                                    /\ inp = Make(<<DelDir2("A", 2, s1, n1, m1), DelDir2("B", 2, s2, n2, m2), DelDir2("C", 2, 512, FALSE, m3)>>, <<first>> \o (IF first.k = "h5" THEN <<E("h4", "", 0, 0, FALSE, FALSE, 0), X>> ELSE <<>>) \o <<File("G")>>, <<File("H")>>, <<<<2, 4>>, <<3, -1>>, <<4, -1>>>>, <<2, 3>>, FALSE)
           [] Family = "edge" -> \E c \in {1899, 1900, 1901, 1902, 1, 0, Bad}, s \in {512, 1024, 1536}, nf, d \in BOOLEAN, v \in {-1, 2048} :
                                    inp = [Make(<<E("dir", "A", c, s, nf, d, 1), File("Z")>>, <<>>, <<>>, <<<<1900, 1901>>, <<1901, -1>>>>, <<>>, FALSE) EXCEPT !.cl = <<@[1], <<1899, <<File("F")>>>>, <<1900, <<File("G")>>>>, <<1901, <<File("H")>>>>>>, !.vs = v]
Frame(p, q, up) == [path |-> p, q |-> q, j |-> 1, i |-> 1, up |-> up]
RootOf == Content(inp.root, -1, FALSE)
Init == /\ (cid = 0 /\ Small) \/ (cid \in 1..Len(Cases) /\ inp = Cases[cid])
        /\ stk = <<Frame(<<>>, RootOf, {inp.root})>>
        /\ reall = <<>> /\ seen = {} /\ orph = <<>> /\ out = <<>>

Top == stk[1]
Here == Held(Top.q[Top.j])
Cur == Here[Top.i]
Rest == IF Top.i < Len(Here) THEN [Top EXCEPT !.i = @ + 1] ELSE [Top EXCEPT !.i = 1, !.j = @ + 1]
AtEnd == Top.j > Len(Top.q)
Shown(e) == [p |-> Top.path, n |-> e.n, c |-> e.c, d |-> e.d, dir |-> e.k = "dir", k |-> "entry"]
Other(e, k) == [p |-> Top.path, n |-> e.n, c |-> 0, d |-> FALSE, dir |-> FALSE, k |-> k]
Note(e) == LET S == { i \in 1..Len(reall) : reall[i].c = e.c } IN
  IF S = {} THEN Append(reall, [c |-> e.c, mt |-> e.mt, s |-> e.s, nf |-> e.nf])
  ELSE LET i == CHOOSE j \in S : TRUE IN IF e.mt > reall[i].mt THEN [reall EXCEPT ![i] = [c |-> e.c, mt |-> e.mt, s |-> e.s, nf |-> e.nf]] ELSE reall
Above(e) == IF e.c = 0 THEN Top.up ELSE Top.up \cup {e.c}
Read ==
  /\ stk # <<>> /\ ~AtEnd
  /\ LET e == Cur
         below == SubSeq(stk, 2, Len(stk))
         on == <<Rest>> \o below
     IN IF e.k \in {"end", "stop"} \/ (e.k \in {"label", "map"} /\ Top.path # <<>>) THEN stk' = below /\ UNCHANGED <<reall, seen, out>>
        ELSE IF e.k \in {"x", "map", "cont", "h5", "h4"} THEN stk' = on /\ UNCHANGED <<reall, seen, out>>
        ELSE IF e.k \in {"lost", "label"} THEN stk' = on /\ out' = Append(out, Other(e, e.k)) /\ UNCHANGED <<reall, seen>>
        ELSE IF e.k = "file" THEN stk' = on /\ out' = Append(out, Shown(e)) /\ UNCHANGED <<reall, seen>>
        ELSE IF e.c # 0 /\ e.c \in Top.up THEN stk' = on /\ UNCHANGED <<reall, seen, out>>                        \* a way back up
        ELSE /\ out' = Append(out, Shown(e))
             /\ IF ~Valid(e.c) THEN stk' = on /\ UNCHANGED <<reall, seen>>
                ELSE IF ~inp.all /\ e.d /\ InUse(e.c) THEN stk' = on /\ reall' = Note(e) /\ UNCHANGED seen
                ELSE /\ seen' = seen \cup {e.c} /\ UNCHANGED reall
                     /\ LET b == Content(e.c, e.s, e.nf) IN stk' = IF b = <<>> THEN on ELSE <<Frame(Top.path \o <<e.n>>, b, Above(e))>> \o on
  /\ UNCHANGED <<cid, inp, orph>>
Return == stk # <<>> /\ AtEnd /\ stk' = SubSeq(stk, 2, Len(stk)) /\ UNCHANGED <<cid, inp, reall, seen, orph, out>>
Collect == stk = <<>> /\ orph = <<>> /\ orph' = SelectSeq(reall, LAMBDA r : r.c \notin seen) \o <<[c |-> -9, mt |-> 0, s |-> 0, nf |-> FALSE]>> /\ UNCHANGED <<cid, inp, stk, reall, seen, out>>
Begins(q) == q # <<>> /\ LET b == Held(q[1]) IN b[1].k \in {"file", "dir"} /\ b[1].d
Revisit == /\ stk = <<>> /\ orph # <<>> /\ orph[1].c # -9
           /\ LET r == orph[1] b == Content(r.c, r.s, r.nf) IN
              stk' = IF Begins(b) THEN <<Frame(<<"<Orphan directory " \o ToString(r.c) \o ">">>, b, {})>> ELSE <<>>
           /\ orph' = SubSeq(orph, 2, Len(orph)) /\ UNCHANGED <<cid, inp, reall, seen, out>>
Over == stk = <<>> /\ orph # <<>> /\ orph[1].c = -9
Done == Over /\ UNCHANGED vars
Next == Read \/ Return \/ Collect \/ Revisit \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Obs == [st |-> "ok", out |-> out]
Report == Over => Out(cid, inp, Obs)

(* ---- what a user relies on ---- *)
Ends == <>(stk = <<>> /\ orph # <<>>)
Depth == Len(stk) <= Len(inp.cl) + 3
\* Nothing of a directory in use is attributed to a deleted one, unless that is asked for.
\* (Looked at when an entry comes out: what came out before was looked at then.)
Honest == (~inp.all /\ out # <<>>) => \A i \in {Len(out)}, j \in 1..Len(out) : ~ (/\ j < i /\ out[j].dir /\ out[j].d /\ InUse(out[j].c) /\ out[i].p = out[j].p \o <<out[j].n>>
                                                   /\ ~ \E k \in 1..Len(out) : k # j /\ k < i /\ out[k].p = out[j].p /\ out[k].n = out[j].n)
\* All of an intact directory below the root is there.
Reached == { e \in Members(Join(RootOf)) : e.k = "dir" /\ ~e.d /\ Valid(e.c) /\ e.c # inp.root }
NoEnd(q) == \A i \in 1..Len(q) : q[i].k \notin {"end", "stop", "label", "map"}
Complete == (Over /\ NoEnd(SelectSeq(Join(RootOf), LAMBDA e : e.k # "map"))) => \A e \in Reached : LET b == Join(Content(e.c, e.s, e.nf)) IN NoEnd(b) => \A f \in Members(b) : f.k = "file" => \E k \in 1..Len(out) : out[k].n = f.n /\ out[k].p = <<e.n>>
=============================================================================

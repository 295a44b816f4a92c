----------------------------- MODULE FatReport ------------------------------
(* The report made of a FAT or exFAT volume: one row per entry of every directory, told by its own *)
(* entry. A directory is read when its row has been written; the rows come in no promised order,   *)
(* but within a directory they are looked at in its order (which label is the first matters).      *)
EXTENDS Emit, Bytes, FiniteSets

CONSTANTS Scope

VARIABLES cid, inp, todo, rows, label
vars == <<cid, inp, todo, rows, label>>
\* inp    [fs, items]: fs 12, 16, 32 or 64 (exFAT); items <<[up, k, d, nm, ext, lc, ln, t, size, enc, tz]>>
\*        up     the directory the entry lies in: 0 for the root, else the number of the item which is this directory
\*        k      "file", "dir", "label", "part" (a name without its entry), "null" (the end mark of FAT, which later entries belie)
\*        d      deleted
\*        nm, ext, lc  the parts of the short name and whether each is shown in lower case (FAT)
\*        ln     the long name, <<>> if there is none
\*        t      the times <<m, a, c>>: 0 for none, else a number that stands for one
\*        size   a number that stands for a size
\*        tz     the time zones <<m, a, c>> in minutes, NoZone if there is none (exFAT)
\* todo   directories to be read: <<item, path>>

NoZone == 9999
Range(q) == { q[i] : i \in 1..Len(q) }
Items == inp.items
Ex == inp.fs = 64
N == Len(Items)

(* ---- small volumes ---- *)
It(up, k, d, i) == [up |-> up, k |-> k, d |-> d, nm |-> <<64 + i, 49>>, ext |-> <<>>, lc |-> <<FALSE, FALSE>>, ln |-> <<>>, t |-> <<1, 2, 3>>, size |-> 1, enc |-> FALSE, tz |-> <<0, 60, 120>>]
Longer(x) == [x EXCEPT !.ln = <<76, 111, 110, 103, 32>> \o x.nm]
Kinds == {"file", "dir"}
Pick(fs, q) == inp = [fs |-> fs, items |-> IF fs = 64 THEN [i \in 1..Len(q) |-> IF q[i].ln = <<>> THEN Longer(q[i]) ELSE q[i]] ELSE [i \in 1..Len(q) |-> IF q[i].k = "part" THEN Longer(q[i]) ELSE q[i]]]
Types == {12, 16, 32, 64}
\* a directory within a directory, deleted or not, with a file in each
SmallA == \E fs \in Types, d1, d2, d3 \in BOOLEAN, l \in BOOLEAN :
            LET L(x) == IF l THEN Longer(x) ELSE x IN
            Pick(fs, <<L(It(0, "dir", d1, 1)), It(1, "file", d2, 2), L(It(1, "dir", d3, 3)), It(3, "file", FALSE, 4), It(0, "file", d2, 5)>>)
\* labels, partial names and the end mark, in any order
Odd(fs) == {It(0, "label", FALSE, 1), It(0, "label", TRUE, 2), It(0, "part", FALSE, 3), It(0, "file", FALSE, 4), It(0, "file", TRUE, 5)} \cup (IF fs = 64 THEN {} ELSE {It(0, "null", FALSE, 0), It(0, "label", FALSE, 6), It(0, "dir", FALSE, 7)})
SmallB == \E fs \in Types : \E a, b, c \in Odd(fs) : a # b /\ b # c /\ a # c
                                                    /\ (fs = 64 => ~(b.k = "label" /\ a.k = "label") /\ ~(c.k = "label" /\ (a.k = "label" \/ b.k = "label")) /\ \A x \in {a, b, c} : x.k = "label" => ~x.d)
                                                    /\ Pick(fs, <<a, b, c, It(0, "file", FALSE, 8)>>)
\* the columns
SmallC == \E fs \in Types, k \in Kinds, d, e \in BOOLEAN, t \in {<<0, 2, 3>>, <<1, 0, 3>>, <<1, 2, 0>>, <<4, 5, 6>>, <<6, 4, 5>>}, s \in 0..3, z \in {<<NoZone, 0, 15>>, <<-15, NoZone, 600>>, <<0, 0, NoZone>>, <<-960, 945, -720>>, <<-60, 60, 0>>} :
            (fs # 64 => z[1] = 0) /\ Pick(fs, <<[It(0, k, d, 1) EXCEPT !.enc = e, !.t = t, !.size = s, !.tz = z], It(0, "file", FALSE, 2)>>)
\* names
Texts == {<<97, 44, 98>>, <<34, 113, 34>>, <<1078, 20013>>, <<120>>, <<32, 46, 120>>}
SmallD == \E fs \in Types, l, m \in Texts \cup {<<>>}, x \in {<<>>, <<84, 88>>}, lc \in BOOLEAN \X BOOLEAN, d \in BOOLEAN :
            (fs = 64 => 34 \notin Range(l) \cup Range(m)) /\   \* no such character in names of exFAT
            Pick(fs, <<[It(0, "dir", FALSE, 1) EXCEPT !.ln = l], [It(1, "file", d, 2) EXCEPT !.ln = m, !.ext = x, !.lc = lc]>>)
Small == Scope # "none" /\ (SmallA \/ SmallB \/ SmallC \/ SmallD)

Init == /\ (cid = 0 /\ Small) \/ (cid \in 1..Len(Cases) /\ inp = Cases[cid])
        /\ todo = {<<0, <<>>>>} /\ rows = <<>> /\ label = 0

(* ---- the rows ---- *)
Within(n) == SelectSeq([i \in 1..N |-> i], LAMBDA i : Items[i].up = n)
Low(q, b) == [i \in 1..Len(q) |-> IF b /\ q[i] >= 65 /\ q[i] <= 90 THEN q[i] + 32 ELSE q[i]]
\* the first character of the short name of a deleted entry is lost
Base(x) == IF x.d THEN <<95>> \o SubSeq(x.nm, 2, Len(x.nm)) ELSE x.nm
Dotted(a, b) == IF b = <<>> THEN a ELSE a \o <<46>> \o b
Raw(x) == Dotted(Base(x), x.ext)
ShortName(x) == IF x.k = "label" THEN Raw(x) ELSE Dotted(Low(Base(x), x.lc[1]), Low(x.ext, x.lc[2]))
Shown(x) == IF x.ln # <<>> THEN x.ln ELSE ShortName(x)
YN(b) == IF b THEN "Y" ELSE "N"
\* an entry behind the end mark of its directory may be in use or not
Behind(i) == \E j \in 1..(i - 1) : Items[j].up = Items[i].up /\ Items[j].k = "null"
State(i) == IF Items[i].d THEN "Y" ELSE IF Behind(i) THEN "?" ELSE "N"
Unsaid == <<-1, -1, -1>>
Row(i, path, tag) ==
  LET x == Items[i] IN
  [tag |-> tag, del |-> State(i), dir |-> YN(x.k = "dir"), path |-> Append(path, Shown(x)), t |-> x.t, size |-> IF Ex /\ x.k = "dir" THEN 9 ELSE x.size, enc |-> YN(x.enc), sn |-> IF Ex THEN <<>> ELSE Raw(x), tz |-> IF Ex THEN x.tz ELSE <<>>]
Dot(x, path, n) == [tag |-> "", del |-> "N", dir |-> "Y", path |-> Append(path, n), t |-> <<x.t[2], x.t[3], x.t[1]>>, size |-> 0, enc |-> "N", sn |-> n, tz |-> <<>>]
Dots(n, path) == IF Ex \/ n = 0 THEN <<>> ELSE << Dot(Items[n], path, <<46>>), Dot(Items[n], path, <<46, 46>>) >>
Part(x, path) == [tag |-> "part", del |-> "?", dir |-> "?", path |-> Append(path, x.ln), t |-> Unsaid, size |-> -1, enc |-> "?", sn |-> IF Ex THEN <<>> ELSE <<-1>>, tz |-> IF Ex THEN <<NoZone, NoZone, NoZone>> ELSE <<>>]
ExLabel(x) == [tag |-> "label", del |-> "N", dir |-> "N", path |-> <<x.ln>>, t |-> Unsaid, size |-> 0, enc |-> "N", sn |-> <<>>, tz |-> <<NoZone, NoZone, NoZone>>]
Use(i) == Items[i].k = "label" /\ ~Ex /\ State(i) # "Y" /\ label = 0
FirstLabel(q) == LET c == SelectSeq(q, Use) IN IF c = <<>> THEN 0 ELSE c[1]
One(i, path, first) == LET x == Items[i] IN
  IF x.k = "null" THEN <<>> ELSE IF x.k = "part" THEN <<Part(x, path)>> ELSE IF x.k = "label" /\ Ex THEN <<ExLabel(x)>> ELSE <<Row(i, path, IF i = first THEN "label" ELSE "")>>
RECURSIVE All(_, _, _)
All(q, path, first) == IF q = <<>> THEN <<>> ELSE One(q[1], path, first) \o All(SubSeq(q, 2, Len(q)), path, first)
DirsOf(q) == { i \in Range(q) : Items[i].k = "dir" }

\* Labels are looked for in the order of the directories only as far as the root, where they belong, goes first.
Read == \E w \in todo :
          /\ (w[1] # 0 => \A v \in todo : v[1] # 0)
          /\ \A v \in todo : v[1] >= w[1]
          /\ LET q == Within(w[1]) f == FirstLabel(q) IN
             /\ rows' = rows \o Dots(w[1], w[2]) \o All(q, w[2], f)
             /\ label' = IF label = 0 THEN f ELSE label
             /\ todo' = (todo \ {w}) \cup { <<i, Append(w[2], Shown(Items[i]))>> : i \in DirsOf(q) }
          /\ UNCHANGED <<cid, inp>>
Over == todo = {}
Done == Over /\ UNCHANGED vars
Next == Read \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Obs == [st |-> "ok", rows |-> rows]
Report == Over => Out(cid, inp, Obs)

(* ---- what a user relies on ---- *)
Ends == <>(todo = {})
Own(i) == Items[i].k # "null"
\* One row for each entry, of whatever directory, plus the two of each directory about itself and its parent.
Count == Over => Len(rows) = Cardinality({ i \in 1..N : Own(i) }) + (IF Ex THEN 0 ELSE 2 * Cardinality({ i \in 1..N : Items[i].k = "dir" }))
\* A path is as long as the entry is deep, and starts with the path of its directory.
RECURSIVE Depth(_)
Depth(i) == IF Items[i].up = 0 THEN 1 ELSE 1 + Depth(Items[i].up)
Deep == Over => \A i \in 1..N : Own(i) /\ ~(Ex /\ Items[i].k = "label") => \E r \in Range(rows) : Len(r.path) = Depth(i) /\ r.path[Len(r.path)] = IF Items[i].k = "part" THEN Items[i].ln ELSE Shown(Items[i])
\* As many rows are called deleted as entries are, and the label is shown as such once.
Honest == Over => Cardinality({ j \in 1..Len(rows) : rows[j].del = "Y" }) = Cardinality({ i \in 1..N : Items[i].d /\ Items[i].k \in {"file", "dir", "label"} })
OneLabel == ~Ex => Cardinality({ j \in 1..Len(rows) : rows[j].tag = "label" }) <= 1
=============================================================================

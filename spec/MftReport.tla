----------------------------- MODULE MftReport -----------------------------
(* The report made of an $MFT: for every file record one row per name (or a single one without   *)
(* a path), then one per entry of its file name index kept in the record, then one per name       *)
(* found in the slack of its segments. Reading goes record by record.                             *)
EXTENDS Emit, PathOps, FiniteSets

CONSTANTS Scope

VARIABLES cid, inp, rec, phase, rows
vars == <<cid, inp, rec, phase, rows>>
\* inp    [segs]: segments of Mft, whose names carry id (for the timestamps) besides, and with
\*        at     other attributes in the order they are stored:
\*               [k "si", id], [k "oid", id (0: not made of a time)], [k "ea", es <<[w is it the WSL metadata, ok, id]>>],
\*               [k "data", nm, res, size, vcn], [k "ir", ty, es <<[rn, rs, d, nm, id, size]>>]
\*        sl     names in the slack: [part characters of a partial name (before them), es <<[pn, ps, d, nm, id, size]>>]
\* phase  what is next: "names", "index", "slack", for the record rec

S == inp.segs

(* ---- small tables ---- *)
Sg(v, u, q, d, n) == [v |-> v, use |-> u, dir |-> d, seq |-> q, bn |-> 0, bs |-> 0, names |-> n, at |-> <<>>, sl |-> [part |-> <<>>, es |-> <<>>]]
Plain == Sg(TRUE, 1, 1, 0, <<>>)
Nm(k, fl, p, id) == [fl |-> fl, pn |-> p[1], ps |-> p[2], nm |-> <<64 + k, 98>>, id |-> id]
RootSeg == Sg(TRUE, 1, 5, 1, << [fl |-> 3, pn |-> 5, ps |-> 5, nm |-> <<46>>, id |-> 50] >>)
Si(i) == [k |-> "si", id |-> i]
Oid(i) == [k |-> "oid", id |-> i]
Ea(es) == [k |-> "ea", es |-> es]
X(w, ok, i) == [w |-> w, ok |-> ok, id |-> i]
Data(nm, r, z, v) == [k |-> "data", nm |-> nm, res |-> r, size |-> z, vcn |-> v]
Ir(ty, es) == [k |-> "ir", ty |-> ty, es |-> es]
Ent(i) == [rn |-> 6 + i, rs |-> i, d |-> i % 2, nm |-> <<105, 48 + i>>, id |-> 60 + i, size |-> 100 + i]
Del(i, p) == [pn |-> p[1], ps |-> p[2], d |-> i % 2, nm |-> <<115, 48 + i>>, id |-> 70 + i, size |-> 200 + i]
Kid(s) == [s EXCEPT !.bn = 6, !.bs = 1]
Frame(a, b, c) == inp = [segs |-> <<Plain, Plain, Plain, Plain, Plain, a, b, c>>]
Dir6 == Sg(TRUE, 1, 1, 1, <<Nm(6, 1, <<5, 5>>, 3)>>)
\* what a row tells of the attributes, split over a base and a child segment
Lists == { <<>>, <<Si(1)>>, <<Si(1), Si(2)>>, <<Oid(1)>>, <<Oid(0), Oid(2)>>, <<Oid(2), Oid(1)>>, <<Data(<<>>, TRUE, 5, 0)>>, <<Data(<<>>, FALSE, 7000, 3), Data(<<>>, FALSE, 9000, 0)>>,
           <<Data(<<>>, FALSE, 0, 0), Data(<<>>, TRUE, 4, 0)>>, <<Data(<<90>>, TRUE, 4, 0), Data(<<97, 98>>, FALSE, 4, 0), Data(<<90>>, FALSE, 4, 2), Data(<<65, 98>>, TRUE, 0, 0)>>, <<Data(<<>>, FALSE, 7, 1)>>,
           <<Ea(<<X(FALSE, TRUE, 1), X(TRUE, FALSE, 2), X(TRUE, TRUE, 3), X(TRUE, FALSE, 4)>>)>>, <<Ea(<<>>), Ea(<<X(TRUE, TRUE, 5)>>), Ea(<<X(TRUE, TRUE, 6)>>)>>, <<Si(0), Oid(3), Data(<<100>>, TRUE, 1, 0)>> }
SmallA == \E x, y \in Lists, u \in {<<1, 1>>, <<0, 2>>} : Frame(RootSeg, [Dir6 EXCEPT !.dir = 0, !.use = u[1], !.seq = u[2], !.at = x], [Kid(Plain) EXCEPT !.at = y])
\* names and paths
Targets == {<<5, 5>>, <<6, 1>>, <<7, 1>>, <<6, 2>>}
Names(k) == {<<>>} \cup { <<Nm(k, f, p, 3)>> : f \in {0, 2}, p \in Targets } \cup { <<Nm(k, 2, p, 3), Nm(k, f, q, 4)>> : f \in {1, 2}, p, q \in Targets }
Index == {<<>>, <<Ir(48, <<>>)>>, <<Ir(48, <<Ent(1), Ent(2)>>)>>, <<Ir(16, <<Ent(1)>>), Ir(48, <<Ent(2)>>), Ir(48, <<Ent(3)>>)>>}
SmallB == \E n \in Names(6), m \in {<<>>, <<Nm(7, 1, <<6, 1>>, 5)>>}, d, e \in {0, 1}, u \in {<<1, 1>>, <<0, 2>>}, x \in Index : (Scope = "thorough" \/ d = 1 \/ x = <<Ir(48, <<Ent(1), Ent(2)>>)>>) /\ Frame(RootSeg, [Sg(TRUE, u[1], u[2], d, n) EXCEPT !.at = x], Sg(TRUE, 1, 1, e, m))
\* slack, in a base and in a child segment, in a record that is or is not valid
Slacks == { [part |-> p, es |-> e] : p \in {<<>>, <<97, 98, 99, 100, 101, 102>>}, e \in { <<>> } \cup { <<Del(1, p)>> : p \in {<<5, 5>>, <<6, 1>>, <<6, 2>>, <<7, 1>>, <<99, 1>>} } \cup { <<Del(1, <<6, 1>>), Del(2, <<5, 5>>)>> } }
SmallC == \E x, y \in Slacks, n \in {<<>>, <<Nm(6, 1, <<5, 5>>, 3)>>}, v \in BOOLEAN : Frame([RootSeg EXCEPT !.at = <<Ir(48, <<Ent(1)>>)>>], [Sg(v, 1, 1, 1, n) EXCEPT !.sl = x], [Kid(Plain) EXCEPT !.sl = y])
Small == Scope # "none" /\ (SmallA \/ SmallB \/ SmallC)

Init == /\ (cid = 0 /\ Small) \/ (cid \in 1..Len(Cases) /\ inp = Cases[cid])
        /\ rec = 0 /\ phase = "names" /\ rows = <<>>

(* ---- the rows ---- *)
RECURSIVE AttrsOf(_)
AttrsOf(a) == IF a = <<>> THEN <<>> ELSE Seg(S, a[1]).at \o AttrsOf(SubSeq(a, 2, Len(a)))
Record == Exists(S, rec) /\ IsBase(S, rec)
A == Assembly(S, rec)
Kind(k) == SelectSeq(AttrsOf(A), LAMBDA x : x.k = k)
FirstOr(q, d) == IF q = <<>> THEN d ELSE q[1]
IdOr(q) == IF q = <<>> THEN -1 ELSE q[1].id
RECURSIVE Concat(_)
Concat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Concat(SubSeq(q, 2, Len(q)))
Wsl == IdOr(SelectSeq(Concat([i \in 1..Len(Kind("ea")) |-> Kind("ea")[i].es]), LAMBDA e : e.w /\ e.ok))
SizeOf == LET q == SelectSeq(Kind("data"), LAMBDA d : d.nm = <<>> /\ (d.res \/ d.vcn = 0)) IN IF q = <<>> THEN -1 ELSE q[1].size
RECURSIVE Less(_, _)
Less(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Less(SubSeq(a, 2, Len(a)), SubSeq(b, 2, Len(b)))
RECURSIVE InOrder(_)
InOrder(T) == IF T = {} THEN <<>> ELSE LET m == CHOOSE x \in T : \A y \in T : x = y \/ Less(x, y) IN <<m>> \o InOrder(T \ {m})
Streams == InOrder({ Kind("data")[i].nm : i \in 1..Len(Kind("data")) } \ {<<>>})
Row(src, n, s, u, d, path, fn, size) == [src |-> src, rn |-> n, rs |-> s, use |-> u, dir |-> d, lsn |-> -1, path |-> path, si |-> -1, fn |-> fn, oid |-> -1, size |-> size, ads |-> <<>>, wsl |-> -1]
FileRow(path, fn) == [Row("file", rec, Seg(S, rec).seq, Seg(S, rec).use, Seg(S, rec).dir, path, fn, SizeOf) EXCEPT !.lsn = rec, !.si = IdOr(Kind("si")), !.oid = IdOr(SelectSeq(Kind("oid"), LAMBDA x : x.id # 0)), !.ads = Streams, !.wsl = Wsl]
FileRows == LET N == Ordered(NamesOf(S, A)) IN IF N = <<>> THEN <<FileRow(<<>>, -1)>> ELSE [i \in 1..Len(N) |-> FileRow(PathOf(S, N[i]), N[i].id)]
IndexRows == LET q == SelectSeq(Kind("ir"), LAMBDA x : x.ty = 48) IN
             IF Seg(S, rec).dir = 0 \/ q = <<>> THEN <<>>
             ELSE [i \in 1..Len(q[1].es) |-> LET e == q[1].es[i] IN Row("index", e.rn, e.rs, -1, e.d, AsDir(FirstOf(S, A)) \o <<e.nm>>, e.id, e.size)]
ParentOf(e) == AsDir(FirstOf(S, ByNumber(S, e.pn, e.ps, TRUE)))
SlackRow(e) == Row("slack", -1, -1, -1, e.d, ParentOf(e) \o <<e.nm>>, e.id, e.size)
SlackRows(n) == LET s == Seg(S, n).sl IN [i \in 1..Len(s.es) |-> SlackRow(s.es[i])] \o (IF s.part = <<>> \/ s.es = <<>> THEN <<>> ELSE <<Row("part", -1, -1, -1, -1, <<s.part>>, -1, -1)>>)

Go == rec < Len(S)
Names2 == /\ Go /\ phase = "names" /\ rows' = (IF Record THEN rows \o FileRows ELSE rows) /\ phase' = "index" /\ UNCHANGED <<cid, inp, rec>>
Index2 == /\ Go /\ phase = "index" /\ rows' = (IF Record THEN rows \o IndexRows ELSE rows) /\ phase' = "slack" /\ UNCHANGED <<cid, inp, rec>>
Slack2 == /\ Go /\ phase = "slack" /\ rows' = (IF Record THEN rows \o Concat([i \in 1..Len(A) |-> SlackRows(A[i])]) ELSE rows) /\ phase' = "names" /\ rec' = rec + 1 /\ UNCHANGED <<cid, inp>>
Over == rec = Len(S)
Done == Over /\ UNCHANGED vars
Next == Names2 \/ Index2 \/ Slack2 \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Obs == [st |-> "ok", rows |-> rows]
Report == Over => Out(cid, inp, Obs)

(* ---- what a user relies on ---- *)
Ends == <>(rec = Len(S))
\* No record is left out, whatever else is in the table, and none is told of twice.
EachRecord == Over => \A n \in 0..(Len(S) - 1) : LET R == { i \in 1..Len(rows) : rows[i].src = "file" /\ rows[i].rn = n } IN
                        Cardinality(R) = IF Exists(S, n) /\ IsBase(S, n) THEN (IF NamesOf(S, Assembly(S, n)) = <<>> THEN 1 ELSE Len(NamesOf(S, Assembly(S, n)))) ELSE 0
Grouped == \A i, j \in 1..Len(rows) : (i < j /\ rows[i].src = "file" /\ rows[j].src = "file") => rows[i].rn <= rows[j].rn
=============================================================================

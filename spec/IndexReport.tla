----------------------------- MODULE IndexReport ----------------------------
(* The report made of the file name indexes of a volume: for every file record with such an index  *)
(* kept outside of it, one row per entry of every intact index buffer, in order, then one per name *)
(* found in the slack of these buffers. Reading goes record by record and buffer by buffer.        *)
EXTENDS Emit, PathOps, FiniteSets

CONSTANTS Scope

VARIABLES cid, inp, rec, buf, rows, later
vars == <<cid, inp, rec, buf, rows, later>>
\* inp    [segs]: segments of Mft with al, the index allocations (one of a kind): <<[i30 BOOLEAN, bufs, cut]>>,
\*        bufs   <<[ok, es, sl]>>, entries [rn, rs, pn, ps, d, nm, id, size, full], names in the slack [pn, ps, d, nm, id, size]
\*        (pn = -1: the first name in the slack may have lost its parent)
\*        cut    where the attribute is split in two records (0: it is not), which changes nothing
\* rec, buf    the record and the buffer to read next
\* later       rows of the slack of this record, to be shown after all of its entries

S == inp.segs

(* ---- small tables ---- *)
Sg(v, u, q, d, n) == [v |-> v, use |-> u, dir |-> d, seq |-> q, bn |-> 0, bs |-> 0, names |-> n, al |-> <<>>]
Plain == Sg(TRUE, 1, 1, 0, <<>>)
Nm(k, fl, p) == [fl |-> fl, pn |-> p[1], ps |-> p[2], nm |-> <<64 + k, 98>>]
RootSeg == Sg(TRUE, 1, 5, 1, << [fl |-> 3, pn |-> 5, ps |-> 5, nm |-> <<46>>] >>)
Kid(s) == [s EXCEPT !.bn = 6, !.bs = 1]
En(i, p) == [rn |-> 6 + i, rs |-> i, pn |-> p[1], ps |-> p[2], d |-> i % 2, nm |-> <<105, 48 + i>>, id |-> 30 + i, size |-> 100 + i, full |-> TRUE]
Short(e) == [e EXCEPT !.full = FALSE]
Sl(i, p) == [pn |-> p[1], ps |-> p[2], d |-> i % 2, nm |-> <<115, 48 + i>>, id |-> 70 + i, size |-> 200 + i]
B(es, sl) == [ok |-> TRUE, es |-> es, sl |-> sl]
Bad(b) == [b EXCEPT !.ok = FALSE]
Al(i30, bufs, cut) == [i30 |-> i30, bufs |-> bufs, cut |-> cut]
Frame(a, b, c) == inp = [segs |-> <<Plain, Plain, Plain, Plain, Plain, a, b, c>>]
Targets == {<<5, 5>>, <<6, 1>>, <<6, 2>>, <<7, 1>>, <<7, 2>>, <<99, 1>>}
Names6 == {<<>>, <<Nm(6, 1, <<5, 5>>)>>, <<Nm(6, 2, <<5, 5>>), Nm(8, 3, <<7, 1>>)>>}
\* whose directory an entry is shown in
SmallA == \E p, q \in Targets, n \in Names6, u \in {<<1, 1>>, <<0, 2>>}, m \in {<<>>, <<Nm(7, 1, <<6, 1>>)>>, <<Nm(7, 1, <<5, 5>>)>>}, v \in {<<1, 1>>, <<0, 2>>} :
            Frame(RootSeg, [Sg(TRUE, u[1], u[2], 1, n) EXCEPT !.al = <<Al(TRUE, <<B(<<En(1, p)>>, <<Sl(1, q)>>)>>, 0)>>], Sg(TRUE, v[1], v[2], 1, m))
\* several buffers, some damaged, the attribute split, more records with an index, another index
Bufs == {B(<<>>, <<>>), B(<<En(1, <<5, 5>>), En(2, <<5, 5>>)>>, <<>>), B(<<En(3, <<6, 1>>)>>, <<Sl(3, <<6, 1>>)>>), B(<<Short(En(4, <<6, 1>>)), En(5, <<6, 1>>)>>, <<Sl(4, <<5, 5>>), Sl(5, <<6, 1>>)>>), B(<<En(7, <<5, 5>>)>>, <<Sl(7, <<-1, -1>>), Sl(8, <<6, 1>>)>>)}
Rest == {<<>>} \cup { <<x>> : x \in Bufs \cup { Bad(b) : b \in Bufs } } \cup (IF Scope = "thorough" THEN { <<x, y>> : x, y \in Bufs \cup { Bad(b) : b \in Bufs } } ELSE { <<Bad(x), y>> : x, y \in Bufs })
SmallB == \E x \in Bufs, y \in Rest, c \in 0..1, o \in {<<>>, <<Al(FALSE, <<B(<<En(6, <<5, 5>>)>>, <<Sl(6, <<5, 5>>)>>)>>, 0)>>}, k \in 0..2 :
            LET a == Al(TRUE, <<x>> \o y, IF c = 1 /\ y # <<>> THEN 1 ELSE 0)
                d == Sg(TRUE, 1, 1, 1, <<Nm(6, 1, <<5, 5>>)>>)
            IN IF k = 0 THEN Frame([RootSeg EXCEPT !.al = <<a>> \o o], d, Sg(TRUE, 1, 1, 0, <<Nm(7, 1, <<6, 1>>)>>))
               ELSE IF k = 1 THEN Frame(RootSeg, [d EXCEPT !.al = o \o <<a>>], Kid(Plain))
               ELSE Frame(RootSeg, [d EXCEPT !.al = o], [Kid(Plain) EXCEPT !.al = <<a>>])
\* a record that is not valid, or no directory any more
SmallC == \E v \in BOOLEAN, d \in {0, 1}, x \in Bufs, y \in Bufs : Frame([RootSeg EXCEPT !.al = <<Al(TRUE, <<x>>, 0)>>], [Sg(v, 1, 1, d, <<Nm(6, 1, <<5, 5>>)>>) EXCEPT !.al = <<Al(TRUE, <<y>>, 0)>>], [Sg(TRUE, 1, 1, 1, <<Nm(7, 0, <<6, 1>>)>>) EXCEPT !.al = <<Al(TRUE, <<x, y>>, 0)>>])
Small == Scope # "none" /\ (SmallA \/ SmallB \/ SmallC)

Init == /\ (cid = 0 /\ Small) \/ (cid \in 1..Len(Cases) /\ inp = Cases[cid])
        /\ rec = 0 /\ buf = 1 /\ rows = <<>> /\ later = <<>>

(* ---- the rows ---- *)
Record == Exists(S, rec) /\ IsBase(S, rec)
A == Assembly(S, rec)
RECURSIVE AllocsOf(_)
AllocsOf(a) == IF a = <<>> THEN <<>> ELSE Seg(S, a[1]).al \o AllocsOf(SubSeq(a, 2, Len(a)))
Buffers == IF ~Record THEN <<>> ELSE LET q == SelectSeq(AllocsOf(A), LAMBDA x : x.i30) IN IF q = <<>> THEN <<>> ELSE q[1].bufs
Directory(e) == AsDir(IF <<e.pn, e.ps>> = <<rec, Seg(S, rec).seq>> THEN FirstOf(S, A) ELSE FirstOf(S, ByNumber(S, e.pn, e.ps, TRUE)))
Row(src, n, s, e) == [src |-> src, rn |-> n, rs |-> s, dir |-> e.d, path |-> Directory(e) \o <<e.nm>>, fn |-> e.id, size |-> e.size]
EntryRows(b) == LET q == SelectSeq(b.es, LAMBDA e : e.full) IN [i \in 1..Len(q) |-> Row("entry", q[i].rn, q[i].rs, q[i])]
SlackRows(b) == [i \in 1..Len(b.sl) |-> Row("slack", -1, -1, b.sl[i])]

Go == rec < Len(S)
Read == /\ Go /\ buf <= Len(Buffers)
        /\ LET b == Buffers[buf] IN IF b.ok THEN rows' = rows \o EntryRows(b) /\ later' = later \o SlackRows(b) ELSE UNCHANGED <<rows, later>>
        /\ buf' = buf + 1 /\ UNCHANGED <<cid, inp, rec>>
Turn == /\ Go /\ buf > Len(Buffers) /\ rows' = rows \o later /\ later' = <<>> /\ buf' = 1 /\ rec' = rec + 1 /\ UNCHANGED <<cid, inp>>
Over == rec = Len(S)
Done == Over /\ UNCHANGED vars
Next == Read \/ Turn \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Obs == [st |-> "ok", rows |-> rows]
Report == Over => Out(cid, inp, Obs)

(* ---- what a user relies on ---- *)
Ends == <>(rec = Len(S))
\* What is shown in a directory is what its entry names as the directory: of that very incarnation of it.
Entries == UNION { LET q == SelectSeq(Seg(S, n).al, LAMBDA x : x.i30) IN IF q = <<>> THEN {} ELSE UNION { { q[1].bufs[i].es[j] : j \in 1..Len(q[1].bufs[i].es) } \cup { q[1].bufs[i].sl[j] : j \in 1..Len(q[1].bufs[i].sl) } : i \in 1..Len(q[1].bufs) } : n \in 0..(Len(S) - 1) }
Attributed == Over => \A i \in 1..Len(rows) : rows[i].path[1] # Unknown => \E e \in Entries : /\ e.nm = rows[i].path[Len(rows[i].path)] /\ e.id = rows[i].fn
                        /\ Exists(S, e.pn) /\ (Seg(S, e.pn).seq = e.ps \/ RefSeq(S, e.pn) = e.ps)
                        /\ SubSeq(rows[i].path, 1, Len(rows[i].path) - 1) = AsDir(FirstOf(S, Assembly(S, IF IsBase(S, e.pn) THEN e.pn ELSE Seg(S, e.pn).bn)))
Grows == [][Len(rows') >= Len(rows) /\ SubSeq(rows', 1, Len(rows)) = rows]_vars
=============================================================================

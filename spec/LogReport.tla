------------------------------ MODULE LogReport -----------------------------
(* The report made of a log file and an $MFT: one section per record of the log, in order, with   *)
(* what the record changed where, and, decoded, the file names, timestamps and journal records in *)
(* the data it carries; at the end the files whose records were freed, in that order. What the    *)
(* index of a target stands for is what the log told before (see LogTargets).                     *)
EXTENDS Emit, PathOps, FiniteSets

CONSTANTS Scope

VARIABLES cid, inp, i, open, pend, pair, out, gone
vars == <<cid, inp, i, open, pend, pair, out, gone>>
\* inp   [segs, cs, evs]: the $MFT, the size of a cluster, the records of the log:
\*       [k "ra"]                                 a restart area
\*       [k "open", i, rn, rs, nm]                an opening: index, file, name of the attribute
\*       [k "oat", i, rn, rs], [k "an", i, nm]    a dump of the table with one entry, of the names with one (i = 0: none)
\*       [k "upd", i, op, u, vcn, cbo, bs, ro, ao, lcns, w, r, z]   anything else: r and z are the data to redo and undo,
\*             w "ok", "off" (nonsensical place of the data), "cut" (cut off within the cluster numbers, without data)
\*       Data: [p "raw", n], [p "frs", at], [p "attr", a, cut], [p "ie", end, short, f], [p "di", id, n], [p "ts", id, n], [p "usn", ok, j];
\*       an attribute: [k "si", id, fa], [k "fn", f], [k "oid", id], [k "other", n], [k "nr"]; a file name f: [pn, ps, nm, id]
\*       a journal record j: as in UsnReport
\* open  index -> what the latest opening said            pend, pair   dumps as in LogTargets
\* out   the sections so far                              gone   numbers of the freed records

S == inp.segs

(* ---- small logs ---- *)
Sg(v, u, q, d, n) == [v |-> v, use |-> u, dir |-> d, seq |-> q, bn |-> 0, bs |-> 0, names |-> n]
Plain == Sg(TRUE, 1, 1, 0, <<>>)
Nm(k, fl, p) == [fl |-> fl, pn |-> p[1], ps |-> p[2], nm |-> <<64 + k, 98>>]
RootSeg == Sg(TRUE, 1, 5, 1, << [fl |-> 3, pn |-> 5, ps |-> 5, nm |-> <<46>>] >>)
Table == <<Plain, Plain, Plain, Plain, Plain, RootSeg, Sg(TRUE, 1, 2, 1, <<Nm(6, 2, <<5, 5>>), Nm(9, 1, <<5, 5>>)>>), Sg(TRUE, 0, 2, 0, <<Nm(7, 3, <<6, 2>>)>>), Sg(FALSE, 1, 1, 0, <<>>), [Sg(TRUE, 1, 1, 0, <<>>) EXCEPT !.bn = 6, !.bs = 2]>>
Raw(n) == [p |-> "raw", n |-> n]
F(p) == [pn |-> p[1], ps |-> p[2], nm |-> <<110, 49>>, id |-> 4]
Si(x) == [k |-> "si", id |-> x, fa |-> <<5, 1>>]
Fn(p) == [k |-> "fn", f |-> F(p)]
Oid(x) == [k |-> "oid", id |-> x]
Attrs == {Si(1), Fn(<<6, 2>>), Oid(3), Oid(0), [k |-> "other", n |-> 20], [k |-> "nr"]}
J(v) == [v |-> v, fn |-> 7, fs |-> 1, pn |-> 6, ps |-> 2, r |-> <<8, 31>>, s |-> <<1>>, id |-> 2, nm |-> <<117>>]
Parents == {<<5, 5>>, <<6, 2>>, <<6, 1>>, <<7, 1>>, <<7, 2>>, <<8, 1>>, <<9, 1>>, <<99, 1>>}
Ies == { [p |-> "ie", end |-> x, short |-> y, f |-> F(<<6, 2>>)] : x, y \in BOOLEAN } \cup { [p |-> "ie", end |-> FALSE, short |-> FALSE, f |-> F(p)] : p \in Parents }
Upd(x, op, u, r, z) == [k |-> "upd", i |-> x, op |-> op, u |-> u, vcn |-> 0, cbo |-> 12, bs |-> 2, ro |-> 300, ao |-> 24, lcns |-> 1, w |-> "ok", r |-> r, z |-> z]
Ra == [k |-> "ra"]
Opn(x, r, nm) == [k |-> "open", i |-> x, rn |-> r[1], rs |-> r[2], nm |-> nm]
Dollar == <<36, 74>>
Ops == (0..27) \cup (31..38)        \* (the others fill the tables)
Frame(q) == inp = [segs |-> Table, cs |-> 4096, evs |-> <<Ra>> \o q]
\* where: every operation, every target
SmallA == \/ \E o \in Ops, u \in {0, 1, 5, 8} : Frame(<<Opn(24, <<6, 2>>, <<97>>), Upd(24, o, u, Raw(16), Raw(0)), Upd(64, u, o, Raw(17), Raw(30))>>)
          \/ \E r \in Parents, nm \in {<<>>, <<97, 98>>} : Frame(<<Opn(24, r, nm), Upd(24, 8, 0, Raw(0), Raw(1)), Opn(24, <<5, 5>>, <<99>>), Upd(24, 8, 8, Raw(15), Raw(16))>>)
          \/ \E r \in Parents, x \in {0, 24, 64}, c \in {"upd", "open", "oat"} : Frame(<<[k |-> "oat", i |-> 24, rn |-> r[1], rs |-> r[2]], [k |-> "an", i |-> x, nm |-> <<97>>],
                (IF c = "open" THEN Opn(24, <<6, 2>>, <<98>>) ELSE IF c = "oat" THEN [k |-> "oat", i |-> 24, rn |-> 5, rs |-> 5] ELSE Upd(24, 21, 22, Raw(2), Raw(33))), Upd(24, 8, 0, Raw(0), Raw(0)), Upd(64, 8, 0, Raw(0), Raw(0))>>)
          \/ \E c \in 0..30, b \in {0, 2, 8}, v \in {0, 1, 3}, cs \in {512, 1024, 4096} : inp = [segs |-> Table, cs |-> cs, evs |-> <<Ra, [Upd(24, 3, 0, Raw(0), Raw(0)) EXCEPT !.cbo = c, !.bs = b, !.vcn = v]>>]
\* what: every kind of data where it belongs and where it does not
Datas == {Raw(0), Raw(24), Raw(60), [p |-> "frs", at |-> <<Si(1), Fn(<<6, 2>>), Oid(2)>>], [p |-> "di", id |-> 2, n |-> 56], [p |-> "di", id |-> 2, n |-> 48], [p |-> "ts", id |-> 5, n |-> 32]} \cup { [p |-> "attr", a |-> a, cut |-> c] : a \in Attrs, c \in BOOLEAN }
Speaking == {2, 4, 5, 6, 7, 8, 19, 20}
SmallB == \/ \E r \in Datas, z \in {Raw(0), Raw(8), [p |-> "attr", a |-> Fn(<<5, 5>>), cut |-> FALSE], [p |-> "di", id |-> 3, n |-> 56]}, o \in Speaking, u \in {0, 5, 6, 7, 19, 4} :
               (Scope = "thorough" \/ r.p # "raw" \/ o = 4) /\ Frame(<<Opn(24, <<6, 2>>, Dollar), Upd(24, o, u, r, z), Upd(24, u, o, z, r)>>)
          \/ \E x \in Ies, y \in {12, 14, 16}, z \in {0, 13, 15, 12, 16} : Frame(<<Upd(24, y, z, x, Raw(16)), Upd(24, 13, y, Raw(16), x), Upd(24, y, z, Raw(40), x), Upd(24, 0, y, x, Raw(24))>>)
          \/ \E x \in Parents, bs \in {0, 2, 8} : Frame(<<[Upd(24, 2, 0, [p |-> "frs", at |-> <<[k |-> "nr"], Fn(x), [k |-> "other", n |-> 3], Si(2), Fn(<<6, 2>>)>>], Raw(0)) EXCEPT !.bs = bs], Upd(24, 5, 6, [p |-> "attr", a |-> Fn(x), cut |-> FALSE], Raw(0))>>)
          \/ \E at \in {0, 48, 55, 56, 57, 64, 71, 72, 80, 88, 89, 96, 97, 104, 105}, n \in {0, 7, 8, 15, 16, 24, 32, 40}, m \in {0, 8, 32}, bs \in {0, 2, 8, 4}, o \in {<<7, 7>>, <<7, 0>>, <<0, 7>>} :
               (Scope = "thorough" \/ (n + at) % 3 = 0) /\ Frame(<<[Upd(24, o[1], o[2], [p |-> "ts", id |-> 2, n |-> n], [p |-> "ts", id |-> 3, n |-> m]) EXCEPT !.ro = at, !.bs = bs]>>)
          \/ \E v \in {2, 3, 4}, ok \in BOOLEAN, nm \in {Dollar, <<36, 75>>, <<>>}, o \in {<<8, 8>>, <<8, 0>>, <<0, 8>>, <<21, 22>>} : Frame(<<Opn(24, <<7, 1>>, nm), Upd(24, o[1], o[2], [p |-> "usn", ok |-> ok, j |-> J(v)], [p |-> "usn", ok |-> TRUE, j |-> [J(2) EXCEPT !.id = 0, !.r = <<7>>]])>>)
\* histories: nothing of one record shows in another, damaged ones stop nothing
Few == { Ra, Opn(24, <<6, 2>>, Dollar), Upd(24, 8, 0, [p |-> "usn", ok |-> TRUE, j |-> J(2)], Raw(3)), Upd(24, 3, 2, Raw(8), [p |-> "frs", at |-> <<Fn(<<5, 5>>)>>]), [Upd(24, 3, 0, Raw(0), Raw(0)) EXCEPT !.cbo = 0],
         [Upd(24, 7, 7, [p |-> "ts", id |-> 1, n |-> 16], Raw(16)) EXCEPT !.w = "off"], [Upd(24, 8, 7, Raw(0), Raw(0)) EXCEPT !.w = "cut", !.lcns = 2], Upd(24, 5, 6, [p |-> "attr", a |-> Si(3), cut |-> FALSE], Raw(0)) }
SmallC == \E a, b, c \in Few : Frame(<<a, b, c>>)
Small == Scope # "none" /\ (SmallA \/ SmallB \/ SmallC)

Init == /\ (cid = 0 /\ Small) \/ (cid \in 1..Len(Cases) /\ inp = Cases[cid])
        /\ i = 1 /\ open = <<>> /\ pend = <<>> /\ pair = <<>> /\ out = <<>> /\ gone = <<>>
E1 == inp.evs[i]

(* ---- the target ---- *)
Resident == {2, 3, 4, 5, 6, 7, 9, 11, 12, 13, 17, 19, 33, 35, 37}
Nonresident == {8, 14, 15, 16, 18, 20, 21, 22, 34, 36}
NoName == <<-1>>
OpenOf(x) == SelectSeq(open, LAMBDA e : e.i = x)
TargetOf(x) == IF OpenOf(x) # <<>> THEN LET e == OpenOf(x)[Len(OpenOf(x))] IN [rn |-> e.rn, rs |-> e.rs, nm |-> e.nm]
               ELSE IF pair # <<>> /\ pair[1].i = x THEN [rn |-> pair[1].rn, rs |-> pair[1].rs, nm |-> IF pair[2].i = x THEN pair[2].nm ELSE NoName]
               ELSE [rn |-> -1, rs |-> -1, nm |-> NoName]
Where(e) == (e.vcn * inp.cs) + (e.cbo * 512)
Res(e) == e.op \in Resident \/ e.u \in Resident
Non(e) == e.op \in Nonresident \/ e.u \in Nonresident
Num(e) == IF Res(e) THEN Where(e) \div (IF e.bs > 0 THEN e.bs * 512 ELSE 1024) ELSE -1
At(e) == IF Res(e) THEN e.ro + e.ao ELSE IF Non(e) THEN Where(e) + e.ro + e.ao ELSE -1
Tgt(e) == IF Res(e) \/ ~Non(e) THEN [rn |-> -1, rs |-> -1, nm |-> NoName] ELSE TargetOf(e.i)
PathTo(e) == IF Num(e) # -1 THEN FirstOf(S, ByNumber(S, Num(e), -1, TRUE)) ELSE IF Tgt(e).rn # -1 THEN FirstOf(S, ByNumber(S, Tgt(e).rn, Tgt(e).rs, TRUE)) ELSE <<>>

(* ---- the data ---- *)
Has(e, K) == e.op \in K \/ e.u \in K
NameOf(b, f) == [b |-> b, id |-> f.id, nm |-> f.nm, pn |-> f.pn, ps |-> f.ps, path |-> FirstOf(S, ByNumber(S, f.pn, f.ps, TRUE))]
OfAttr(a) == IF a.k = "si" THEN <<[b |-> "si", id |-> a.id, fa |-> a.fa]>> ELSE IF a.k = "fn" THEN <<NameOf("fn", a.f)>> ELSE IF a.k = "oid" THEN <<[b |-> "oid", id |-> a.id]>> ELSE <<>>
RECURSIVE Every(_)
Every(q) == IF q = <<>> THEN <<>> ELSE OfAttr(q[1]) \o Every(SubSeq(q, 2, Len(q)))
Round(n) == ((n + 7) \div 8) * 8
Size(d) == IF d.p = "attr" THEN (IF d.a.k = "si" THEN 72 ELSE IF d.a.k = "fn" THEN Round(90 + (2 * Len(d.a.f.nm))) ELSE IF d.a.k = "oid" THEN 40 ELSE IF d.a.k = "nr" THEN 72 ELSE Round(24 + d.a.n)) - (IF d.cut THEN 8 ELSE 0)
           ELSE IF d.p \in {"raw", "di", "ts"} THEN d.n ELSE 1000
FrsOf(e) == IF e.op = 2 /\ e.r.p = "frs" THEN Every(e.r.at) ELSE <<>>
AttrOf(e) == LET d == IF e.op = 5 THEN e.r ELSE IF e.u = 5 THEN e.z ELSE IF Size(e.r) > Size(e.z) THEN e.r ELSE e.z IN
             IF Has(e, {4, 5}) /\ d.p = "attr" THEN (IF d.cut THEN <<>> ELSE OfAttr(d.a)) ELSE <<>>
Part(w, e, d, o) == IF d.p # "ts" THEN <<>> ELSE
  IF d.n < 8 THEN <<>> ELSE LET on(x) == o <= x /\ x + 8 <= o + d.n IN <<[b |-> "ts", w |-> w, id |-> d.id, c |-> on(0), m |-> on(8), e |-> on(16), a |-> on(24)]>>
TsOf(e) == IF ~Has(e, {7}) \/ e.bs \notin {0, 2, 8} THEN <<>> ELSE
           LET o == At(e) - (IF e.bs = 8 THEN 96 ELSE 80) IN IF o < 0 \/ o > 32 THEN <<>> ELSE Part("redo", e, e.r, o) \o Part("undo", e, e.z, o)
IeOf(e) == LET d == IF e.op \in {12, 14, 16} THEN e.r ELSE e.z IN IF Has(e, {12, 14, 16}) /\ d.p = "ie" THEN (IF d.end \/ d.short THEN <<>> ELSE <<NameOf("ie", d.f)>>) ELSE <<>>
Dup(w, o, d) == IF o \in {19, 20} /\ d.p = "di" THEN (IF d.n = 56 THEN <<[b |-> "di", w |-> w, id |-> d.id]>> ELSE <<>>) ELSE <<>>
ReasonBits == {0, 1, 2, 4, 5, 6, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 31}
Pick(b, K) == SelectSeq(b, LAMBDA x : x \in K)
Drop(b, K) == SelectSeq(b, LAMBDA x : x \notin K)
Usn(o, d) == IF o # 8 \/ d.p # "usn" THEN <<>> ELSE IF ~d.ok THEN <<>> ELSE
  <<[b |-> "usn", v |-> d.j.v, fn |-> d.j.fn, fs |-> d.j.fs, pn |-> d.j.pn, ps |-> d.j.ps, r |-> Pick(d.j.r, ReasonBits), ro |-> Drop(d.j.r, ReasonBits), s |-> Pick(d.j.s, 0..3), so |-> Drop(d.j.s, 0..3), id |-> d.j.id, nm |-> d.j.nm]>>
UsnOf(e) == IF Tgt(e).nm = Dollar THEN Usn(e.op, e.r) \o Usn(e.u, e.z) ELSE <<>>
Said(e) == FrsOf(e) \o AttrOf(e) \o TsOf(e) \o IeOf(e) \o Dup("redo", e.op, e.r) \o Dup("undo", e.u, e.z) \o UsnOf(e)

(* ---- a section per record ---- *)
Section(e) == IF e.k # "upd" THEN [k |-> e.k]
              ELSE IF e.w = "off" THEN [k |-> "off"]
              ELSE [k |-> e.w, num |-> Num(e), tgt |-> Tgt(e), path |-> PathTo(e), at |-> At(e), said |-> IF e.w = "cut" THEN <<>> ELSE Said(e)]
Step == /\ i <= Len(inp.evs)
        /\ out' = Append(out, Section(E1))
        /\ open' = (IF E1.k = "open" THEN Append(open, E1) ELSE open)
        /\ pend' = (IF E1.k = "oat" THEN <<E1>> ELSE IF E1.k = "an" THEN <<>> ELSE pend)
        /\ pair' = (IF E1.k = "an" /\ pend # <<>> THEN <<pend[1], E1>> ELSE pair)
        /\ gone' = (IF E1.k = "upd" THEN (IF E1.op = 3 /\ E1.w = "ok" THEN Append(gone, Num(E1)) ELSE gone) ELSE gone)
        /\ i' = i + 1 /\ UNCHANGED <<cid, inp>>
Over == i > Len(inp.evs)
Done == Over /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Obs == [st |-> "ok", out |-> out, gone |-> gone]
Report == Over => Out(cid, inp, Obs)

(* ---- what a user relies on ---- *)
Ends == <>(i > Len(inp.evs))
EachOnce == Over => Len(out) = Len(inp.evs)
\* A path is only shown for a file that the log, or the data of that very record, refers to, with the sequence number it refers to.
Valid == \A k \in 1..Len(out) : out[k].k = "ok" => ((out[k].tgt.rn # -1 /\ out[k].path # <<>>) => (Exists(S, out[k].tgt.rn) /\ RefSeq(S, out[k].tgt.rn) = out[k].tgt.rs))
\* A target is one the log spoke of before.
Known == \A k \in 1..Len(out) : out[k].k = "ok" => (out[k].tgt.rn # -1 => \E m \in 1..(k - 1) : inp.evs[m].k \in {"open", "oat"} /\ inp.evs[m].i = inp.evs[k].i /\ inp.evs[m].rn = out[k].tgt.rn)
=============================================================================

---------------------------- MODULE LogTargets ----------------------------
(* The open attribute table as a log tells it. A record names its target by an index; which *)
(* file that is follows from the records before it: the latest opening of that index or,     *)
(* failing that, the latest complete pair of table dumps (the table and the names), written  *)
(* at a checkpoint. Every log client has tables of its own. Damaged openings invalidate the   *)
(* table rather than leaving a stale one; damaged dumps are as good as none.                  *)
EXTENDS Emit, Bytes, FiniteSets

CONSTANTS Scope, Setups, MaxOps, Kinds

VARIABLES cid, inp, tab, pend, pair, said
vars == <<cid, inp, tab, pend, pair, said>>
\* inp   the setup [maj, cs] and the events so far      tab   per client: the openings <<index, file, name>>
\* pend  per client: a table dump waiting for its names  pair  per client: the latest complete pair
\* said  what a reader reports for each event

Clients == {0, 1}
None == [t |-> <<>>, n |-> <<>>, is |-> FALSE]
Init == /\ \/ cid = 0 /\ Scope # "none" /\ \E x \in Setups : inp = [maj |-> x.maj, cs |-> x.cs, evs |-> <<>>]
           \/ cid \in 1..Len(Cases) /\ inp = [Cases[cid] EXCEPT !.evs = <<>>]
        /\ tab = [c \in Clients |-> <<>>] /\ pend = [c \in Clients |-> None] /\ pair = [c \in Clients |-> None]
        /\ said = <<>>

Resident == {2, 3, 4, 5, 6, 7, 9, 11, 12, 13, 17, 19, 33, 35, 37}
Nonresident == {8, 14, 15, 16, 18, 20, 21, 22, 34, 36}
UsesDumps == inp.maj \in {0, 1}

(* ---- what each record does to the tables ---- *)
Opened(c, e) == IF e.w # "ok" THEN <<>> ELSE SelectSeq(tab[c], LAMBDA x : x[1] # e.i) \o <<<<e.i, e.r, e.nm>>>>
Tables(e) ==
  CASE e.k = "open" -> tab' = [tab EXCEPT ![e.c] = Opened(e.c, e)] /\ UNCHANGED <<pend, pair>>
    [] e.k = "oat" -> pend' = [pend EXCEPT ![e.c] = IF e.w = "ok" THEN [t |-> e.es, n |-> <<>>, is |-> TRUE] ELSE None] /\ UNCHANGED <<tab, pair>>
    [] e.k = "an" -> /\ pair' = [pair EXCEPT ![e.c] = IF pend[e.c].is /\ e.w = "ok" THEN [pend[e.c] EXCEPT !.n = e.ns] ELSE @]
                     /\ pend' = [pend EXCEPT ![e.c] = None] /\ UNCHANGED tab
    [] OTHER -> UNCHANGED <<tab, pend, pair>>

(* ---- what is reported for a record, with the tables in force at that point ---- *)
Find(q, i) == { j \in 1..Len(q) : q[j][1] = i }
FirstOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Unknown == <<>>
Target(c, i) ==
  IF Find(tab'[c], i) # {} THEN LET x == tab'[c][FirstOf(Find(tab'[c], i))] IN <<x[2], x[3]>>
  ELSE IF ~UsesDumps \/ ~pair'[c].is THEN Unknown
  ELSE LET S == { j \in Find(pair'[c].t, i) : pair'[c].t[j][3] } IN      \* only entries in use
       IF S = {} THEN Unknown
       ELSE LET N == Find(pair'[c].n, i) IN <<pair'[c].t[FirstOf(S)][2], IF N = {} THEN -1 ELSE pair'[c].n[FirstOf(N)][2]>>
Cluster == IF inp.maj = -1 THEN 4096 ELSE inp.cs
Where(e) == (e.vcn * Cluster) + (e.cbo * 512)
Say(e) ==
  IF e.k # "upd" THEN [k |-> e.k]
  ELSE LET res == e.op \in Resident \/ e.u \in Resident
           non == e.op \in Nonresident \/ e.u \in Nonresident
       IN [k |-> "upd",
           num |-> IF res THEN Where(e) \div (IF e.bs > 0 THEN e.bs * 512 ELSE 1024) ELSE -1,
           at |-> IF res THEN e.ro + e.ao ELSE IF non THEN Where(e) + e.ro + e.ao ELSE -1,
           tgt |-> IF non THEN Target(e.c, e.i) ELSE Unknown]

Do(e) == /\ Tables(e)
         /\ said' = Append(said, Say(e))
         /\ inp' = [inp EXCEPT !.evs = Append(@, e)]

N == Len(inp.evs) + 1
Idx == IF inp.maj = 0 THEN {24, 68} ELSE {24, 64}
Low == IF 24 \in Idx THEN 24 ELSE 24
High == CHOOSE x \in Idx : x # 24
Upd(c, i, op) == [k |-> "upd", c |-> c, i |-> i, op |-> op, u |-> 0, vcn |-> N, cbo |-> 1, bs |-> 2, ro |-> 8, ao |-> 16, lcns |-> 1]
Choices == (IF "open" \in Kinds THEN { [k |-> "open", c |-> c, i |-> i, r |-> N, nm |-> IF i = 24 THEN 0 ELSE N, w |-> "ok"] : i \in Idx, c \in IF "clients" \in Kinds THEN Clients ELSE {0} } ELSE {})
           \cup (IF "bad" \in Kinds THEN { [k |-> "open", c |-> 0, i |-> High, r |-> N, nm |-> N, w |-> w] : w \in {"short", "off", "noff"} } ELSE {})
           \cup (IF "dump" \in Kinds THEN { [k |-> "oat", c |-> 0, es |-> es, w |-> "ok"] : es \in { <<>>, <<<<24, 100 + N, TRUE>>>>, <<<<24, 100 + N, FALSE>>, <<High, 200 + N, TRUE>>>>, <<<<24, 100 + N, TRUE>>, <<High, 200 + N, FALSE>>>> } }
                                     \cup { [k |-> "an", c |-> 0, ns |-> ns, w |-> "ok"] : ns \in { <<>>, <<<<24, 100 + N>>>>, <<<<High, 200 + N>>, <<24, 100 + N>>>> } } ELSE {})
           \cup (IF "bad" \in Kinds THEN { [k |-> "oat", c |-> 0, es |-> <<>>, w |-> "off"], [k |-> "an", c |-> 0, ns |-> <<>>, w |-> "off"] } ELSE {})
           \cup { Upd(c, i, 8) : i \in Idx, c \in IF "clients" \in Kinds THEN Clients ELSE {0} }

Step == cid = 0 /\ Len(inp.evs) < MaxOps /\ \E e \in Choices : Do(e) /\ UNCHANGED cid
Given == cid > 0 /\ Len(inp.evs) < Len(Cases[cid].evs) /\ Do(Cases[cid].evs[Len(inp.evs) + 1]) /\ UNCHANGED cid
Finished == IF cid = 0 THEN inp.evs # <<>> /\ inp.evs[Len(inp.evs)].k = "upd" ELSE Len(inp.evs) = Len(Cases[cid].evs)
Done == (IF cid = 0 THEN TRUE ELSE Finished) /\ UNCHANGED vars
Next == Step \/ Given \/ Done
Spec == Init /\ [][Next]_vars

Obs == [evs |-> said]
Report == Finished => Out(cid, inp, Obs)

(* ---- what a user relies on ---- *)
Upds == { j \in 1..Len(said) : said[j].k = "upd" /\ said[j].tgt # Unknown }
\* A reported file was recorded for that very index, by the same client, earlier in the log.
Grounded == \A j \in Upds : LET e == inp.evs[j] IN
  \E i \in 1..(j - 1) : LET x == inp.evs[i] IN x.c = e.c /\
      \/ x.k = "open" /\ x.i = e.i /\ x.r = said[j].tgt[1]
      \/ x.k = "oat" /\ \E y \in 1..Len(x.es) : x.es[y][1] = e.i /\ x.es[y][2] = said[j].tgt[1] /\ x.es[y][3]
\* The latest opening wins over anything before it.
Latest == \A j \in Upds : LET e == inp.evs[j] IN
  \A i \in 1..(j - 1) : (inp.evs[i].k = "open" /\ inp.evs[i].c = e.c /\ inp.evs[i].i = e.i /\ inp.evs[i].w = "ok"
                         /\ ~ \E m \in (i + 1)..(j - 1) : inp.evs[m].k = "open" /\ inp.evs[m].c = e.c /\ (inp.evs[m].i = e.i \/ inp.evs[m].w # "ok"))
                        => said[j].tgt = <<inp.evs[i].r, inp.evs[i].nm>>
\* The file and the name come from the same checkpoint: with names numbered after their dump, both are from dumps with none of their kind between.
SameCheckpoint == \A c \in Clients : pair[c].is =>
  \E i, j \in 1..Len(inp.evs) : i < j /\ inp.evs[i].k = "oat" /\ inp.evs[j].k = "an" /\ inp.evs[i].c = c /\ inp.evs[j].c = c
      /\ inp.evs[i].es = pair[c].t /\ inp.evs[j].ns = pair[c].n
      /\ ~ \E m \in (i + 1)..(j - 1) : inp.evs[m].c = c /\ inp.evs[m].k \in {"oat", "an"}
=============================================================================

----------------------------- MODULE AllReport ------------------------------
(* The report made of the $MFT of a volume and of each of its shadow copies. Files come, go and are *)
(* renamed, the $MFT grows, and now and then a shadow copy is made. The report after any such       *)
(* history shows the table as it is now and as it was when each shadow copy was made.               *)
EXTENDS Emit, Bytes, FiniteSets

CONSTANTS Scope, Slots, MaxOps, MaxSnaps

VARIABLES cid, inp, table, snaps
vars == <<cid, inp, table, snaps>>
\* inp    [ops, on]: the history so far; on: whether shadow copies were ever enabled here
\* table  the records: [seq, use, nm], nm the number of the step which gave the file its name, 0: never used
\*        and how many of the records the $MFT has room for
\* snaps  what the table was when each shadow copy was made

Never == [seq |-> 1, use |-> 0, nm |-> 0]
Init == /\ \/ cid = 0 /\ Scope # "none" /\ inp \in { [ops |-> <<>>, on |-> b] : b \in BOOLEAN }
           \/ cid \in 1..Len(Cases) /\ inp = [Cases[cid] EXCEPT !.ops = <<>>]
        /\ table = [f |-> [s \in 1..Slots |-> Never], room |-> Slots - 1]
        /\ snaps = <<>>

V == Len(inp.ops) + 1
Fits(s) == s <= table.room
Make(s) == /\ Fits(s) /\ table.f[s].use = 0
           /\ table' = [table EXCEPT !.f[s] = [seq |-> @.seq, use |-> 1, nm |-> V]] /\ UNCHANGED snaps
Drop(s) == /\ Fits(s) /\ table.f[s].use = 1
           /\ table' = [table EXCEPT !.f[s] = [seq |-> @.seq + 1, use |-> 0, nm |-> @.nm]] /\ UNCHANGED snaps
Rename(s) == /\ Fits(s) /\ table.f[s].use = 1
             /\ table' = [table EXCEPT !.f[s].nm = V] /\ UNCHANGED snaps
Grow == table.room < Slots /\ table' = [table EXCEPT !.room = Slots] /\ UNCHANGED snaps
Snap == inp.on /\ snaps' = Append(snaps, table) /\ UNCHANGED table
Do(op) == CASE op.o = "make" -> Make(op.s) [] op.o = "drop" -> Drop(op.s) [] op.o = "name" -> Rename(op.s) [] op.o = "grow" -> Grow [] op.o = "snap" -> Snap
Ops == { [o |-> o, s |-> s] : o \in {"make", "drop", "name"}, s \in 1..Slots } \cup { [o |-> "grow", s |-> 0] } \cup (IF Len(snaps) < MaxSnaps THEN { [o |-> "snap", s |-> 0] } ELSE {})
Step(op) == Do(op) /\ inp' = [inp EXCEPT !.ops = Append(@, op)] /\ UNCHANGED cid
Free == cid = 0 /\ Len(inp.ops) < MaxOps /\ \E op \in Ops : Step(op)
Given == cid > 0 /\ Len(inp.ops) < Len(Cases[cid].ops) /\ Step(Cases[cid].ops[Len(inp.ops) + 1])
Over == cid = 0 \/ Len(inp.ops) = Len(Cases[cid].ops)
Done == UNCHANGED vars
Next == Free \/ Given \/ Done
Spec == Init /\ [][Next]_vars

(* ---- the rows ---- *)
Shown(t) == SelectSeq([s \in 1..Slots |-> [s |-> s, seq |-> t.f[s].seq, use |-> t.f[s].use, nm |-> t.f[s].nm]], LAMBDA r : r.s <= t.room /\ r.nm # 0)
Obs == [st |-> "ok", main |-> Shown(table), copies |-> [i \in 1..Len(snaps) |-> Shown(snaps[i])]]
Report == Over => Out(cid, inp, Obs)

(* ---- what a user relies on ---- *)
\* A shadow copy stays what it was, whatever is done later.
Frozen == [][\A i \in 1..Len(snaps) : i <= Len(snaps') /\ snaps'[i] = snaps[i]]_vars
\* Of a file nothing is shown that was there only later.
Past == \A i \in 1..Len(snaps) : \A r \in { Shown(snaps[i])[j] : j \in 1..Len(Shown(snaps[i])) } : \E k \in 1..Len(inp.ops) : inp.ops[k].o = "snap" /\ r.nm < k
=============================================================================

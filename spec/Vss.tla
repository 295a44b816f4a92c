-------------------------------- MODULE Vss --------------------------------
(* Volume shadow copies. A volume of blocks is changed while a stack of snapshots is kept:   *)
(* the newest store saves what a change would destroy (a whole block), follows a block that   *)
(* is moved to a place unused in the snapshot (a forwarder), and holds what was written to     *)
(* the snapshot itself (overlays of some sectors). A block is modelled as two groups of         *)
(* sectors. The reader below works on the tables alone; the invariant Correct says that what it *)
(* computes is what the volume held when the snapshot was made.                                 *)
EXTENDS Emit, Bytes, FiniteSets

CONSTANTS Scope, Setups, MaxOps, MaxSnaps, Kinds

VARIABLES cid, inp, vol, st, view
vars == <<cid, inp, vol, st, view>>
\* inp  the setup (n blocks, sizes, reads) and the history so far
\* vol  the volume now: block -> <<group 1, group 2>>
\* st   the stores, oldest first: [e unused blocks, nul, ents the table, snap the volume when it was made,
\*      own what was written to the snapshot, fwd where a moved block is now, kept blocks saved for good]
\* view what a reader sees: store -> block -> <<group 1, group 2>> (a function of st and vol)

Null == 0
AnyValue == -1
Blocks == 1..inp.n
Top == Len(st)
Snaps == Cardinality({ i \in 1..Len(inp.ops) : inp.ops[i].o = "snap" })

Init == /\ \/ cid = 0 /\ Scope # "none" /\ \E x \in Setups : inp = [n |-> x.n, size |-> x.size, arg |-> x.arg, reads |-> x.reads, ops |-> <<>>]
           \/ cid \in 1..Len(Cases) /\ inp = [Cases[cid] EXCEPT !.ops = <<>>]
        /\ vol = [b \in 1..inp.n |-> <<1000 + b, 1000 + b>>]
        /\ st = <<>> /\ view = <<>>

(* ---- the writer ---- *)
V == Len(inp.ops) + 1                                                    \* a value never used before
ToSet(q) == { q[i] : i \in 1..Len(q) }
Targets(s) == { s.fwd[b] : b \in Blocks } \ {0}
TouchedIn(s) == { b \in Blocks : s.own[b] # <<Null, Null>> }
\* A new snapshot; u is what the file system reports as unused. Only what was unused in the older one too is really not needed.
Snap(u, nul) ==
  /\ (Top > 0 => u \cap Targets(st[Top]) = {})
  /\ st' = Append(st, [e |-> IF Top = 0 THEN u ELSE u \cap st[Top].e, nul |-> nul, ents |-> <<>>, snap |-> vol, own |-> [b \in Blocks |-> <<Null, Null>>],
                       fwd |-> [b \in Blocks |-> 0], kept |-> {}, u |-> u])
  /\ vol' = vol
Reg(b) == [k |-> "reg", b |-> b, t |-> 0, c |-> vol[b], h |-> 0]
Save(s, b) ==
  LET xs == { x \in Blocks : s.fwd[x] = b }
  IN IF xs # {} THEN LET x == CHOOSE y \in xs : TRUE IN [s EXCEPT !.ents = Append(@, Reg(b)), !.kept = @ \cup {x}, !.fwd[x] = 0]
     ELSE IF b \in s.e \/ b \in s.kept \/ s.fwd[b] # 0 THEN s
     ELSE [s EXCEPT !.ents = Append(@, Reg(b)), !.kept = @ \cup {b}]
WriteOp(b) == /\ st' = IF Top = 0 THEN st ELSE [st EXCEPT ![Top] = Save(@, b)]
              /\ vol' = [vol EXCEPT ![b] = <<V, V>>]
\* The content of b is moved to t, unused so far; the store follows it instead of saving it.
Holder(s, b) == { x \in Blocks : s.fwd[x] = b }
CanMove(b, t) == /\ Top > 0 /\ b # t /\ t \in st[Top].e /\ t \notin Targets(st[Top]) /\ t \notin TouchedIn(st[Top])
                 /\ \/ b \notin st[Top].e /\ b \notin st[Top].kept /\ st[Top].fwd[b] = 0
                    \/ Holder(st[Top], b) # {}
MoveOp(b, t) == /\ CanMove(b, t)
                /\ LET x == IF Holder(st[Top], b) # {} THEN CHOOSE y \in Holder(st[Top], b) : TRUE ELSE b
                   IN st' = [st EXCEPT ![Top].ents = Append(@, [k |-> "fwd", b |-> b, t |-> t, c |-> <<0, 0>>, h |-> 0]), ![Top].fwd[x] = t]
                /\ vol' = [vol EXCEPT ![t] = vol[b]]
\* The snapshot itself is written to, in one group of sectors.
CanTouch(s, b) == s \in 1..Top /\ ~ \E i \in 1..Len(st[s].ents) : st[s].ents[i].k = "fwd" /\ st[s].ents[i].t = b
TouchOp(s, b, h) == /\ CanTouch(s, b)
                    /\ st' = [st EXCEPT ![s].ents = Append(@, [k |-> "ovl", b |-> b, t |-> 0, c |-> <<V, V>>, h |-> h]), ![s].own[b][h] = V]
                    /\ vol' = vol
\* A block that was saved is saved again, by an entry that is marked as a forwarder of the block to itself and holds the data.
CanResave(b) == Top > 0 /\ b \in st[Top].kept /\ Holder(st[Top], b) = {}
ResaveOp(b) == CanResave(b) /\ st' = [st EXCEPT ![Top].ents = Append(@, [k |-> "self", b |-> b, t |-> b, c |-> st[Top].snap[b], h |-> 0])] /\ vol' = vol
\* An entry that is to be ignored.
JunkOp(b) == Top > 0 /\ st' = [st EXCEPT ![Top].ents = Append(@, [k |-> "junk", b |-> b, t |-> 0, c |-> <<V, V>>, h |-> 0])] /\ vol' = vol

Do(op) == CASE op.o = "snap" -> Snap(ToSet(op.u), op.nul)
            [] op.o = "write" -> WriteOp(op.b)
            [] op.o = "move" -> MoveOp(op.b, op.t)
            [] op.o = "touch" -> TouchOp(op.s, op.b, op.h)
            [] op.o = "junk" -> JunkOp(op.b)
            [] op.o = "resave" -> ResaveOp(op.b)

(* ---- the reader: from the tables alone ---- *)
\* A forwarder makes the next whole entry of its target the entry of its own block.
RECURSIVE Norm(_, _, _, _)
Norm(q, i, ctx, done) ==
  IF i > Len(q) THEN done
  ELSE LET e == q[i]
           hit == e.k \in {"reg", "fwd"} /\ ctx[e.b] # 0
           b == IF hit THEN ctx[e.b] ELSE e.b
           c1 == IF hit THEN [ctx EXCEPT ![e.b] = 0] ELSE ctx
           c2 == IF e.k = "fwd" THEN [c1 EXCEPT ![e.t] = b] ELSE c1
           keep == SelectSeq(done, LAMBDA y : ~(y.k = "reg" /\ y.b = e.b))
       IN IF e.k = "self" THEN Norm(q, i + 1, ctx, Append(keep, [e EXCEPT !.k = "reg"]))
          ELSE IF e.k = "junk" THEN Norm(q, i + 1, ctx, done) ELSE Norm(q, i + 1, c2, Append(done, [e EXCEPT !.b = b]))
Table(s, n) == Norm(s.ents, 1, [b \in 1..n |-> 0], <<>>)

LastOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Of(T, b, k) == { i \in 1..Len(T) : T[i].b = b /\ T[i].k = k }
Whole(T, b) == Of(T, b, "reg") \cup Of(T, b, "fwd")
RECURSIVE Through(_, _, _, _, _, _), Later(_, _, _)
\* Does a store newer than i know block b?
Later(TT, i, b) == IF i >= Len(TT) THEN FALSE ELSE Whole(TT[i + 1], b) # {} \/ Later(TT, i + 1, b)
\* Block b as store i and the newer ones show it; f: looking for the target of a forwarder; ss, v: the stores and the volume.
Through(ss, v, TT, i, b, f) ==
  IF i > Len(TT) THEN v[b]
  ELSE IF Of(TT[i], b, "reg") # {} THEN TT[i][LastOf(Of(TT[i], b, "reg"))].c
  ELSE IF Of(TT[i], b, "fwd") # {} THEN Through(ss, v, TT, i + 1, TT[i][LastOf(Of(TT[i], b, "fwd"))].t, TRUE)
  ELSE IF b \in ss[i].e /\ ss[i].nul /\ ~Later(TT, i, b) /\ ~(f /\ i = Len(TT)) THEN <<Null, Null>>
  ELSE Through(ss, v, TT, i + 1, b, f)
Over(TT, i, b, h, base) == LET S == { j \in Of(TT[i], b, "ovl") : TT[i][j].h = h } IN IF S = {} THEN base ELSE TT[i][LastOf(S)].c[h]
\* An unused block of which only some sectors were written: the rest is left open where stores disagree on unused blocks.
Open(ss, TT, i, b) == b \in ss[i].e /\ (Of(TT[i], b, "ovl") # {} \/ \E j \in (i + 1)..Len(TT) : Of(TT[j], b, "ovl") # {} /\ \E x \in (i + 1)..Len(TT) : ss[x].nul # ss[i].nul)
See(ss, v, TT, i, b) == LET x == Through(ss, v, TT, i, b, FALSE) IN [h \in 1..2 |-> Over(TT, i, b, h, IF Open(ss, TT, i, b) THEN AnyValue ELSE x[h])]
Views(ss, v) == LET TT == [i \in 1..Len(ss) |-> Table(ss[i], inp.n)] IN [i \in 1..Len(ss) |-> [b \in 1..inp.n |-> See(ss, v, TT, i, b)]]

Act(op) == Do(op) /\ view' = Views(st', vol') /\ inp' = [inp EXCEPT !.ops = Append(@, op)]
Choices == (IF "snap" \in Kinds /\ Snaps < MaxSnaps THEN { [o |-> "snap", u |-> u, nul |-> n] : u \in {<<>>, <<inp.n>>, <<1, inp.n>>}, n \in {TRUE, FALSE} } ELSE {})
           \cup { [o |-> "write", b |-> b] : b \in Blocks }
           \cup (IF "move" \in Kinds THEN { [o |-> "move", b |-> b, t |-> t] : b \in Blocks, t \in Blocks } ELSE {})
           \cup (IF "touch" \in Kinds THEN { [o |-> "touch", s |-> s, b |-> b, h |-> h] : s \in 1..Top, b \in Blocks, h \in 1..2 } ELSE {})
           \cup (IF "resave" \in Kinds THEN { [o |-> "resave", b |-> b] : b \in Blocks } ELSE {})
           \cup (IF "junk" \in Kinds THEN { [o |-> "junk", b |-> b] : b \in Blocks } ELSE {})
Step == cid = 0 /\ Len(inp.ops) < MaxOps /\ \E op \in Choices : Act(op) /\ UNCHANGED cid
Given == cid > 0 /\ Len(inp.ops) < Len(Cases[cid].ops) /\ Act(Cases[cid].ops[Len(inp.ops) + 1]) /\ UNCHANGED cid
Finished == IF cid = 0 THEN Top > 0 /\ (Len(inp.ops) = MaxOps \/ inp.ops[Len(inp.ops)].o # "snap") ELSE Len(inp.ops) = Len(Cases[cid].ops)
Done == (IF cid = 0 THEN TRUE ELSE Finished) /\ UNCHANGED vars
Next == Step \/ Given \/ Done
Spec == Init /\ [][Next]_vars

(* ---- reading it like a file: a history of seek and read calls on one snapshot ---- *)
End == IF inp.arg = 0 THEN inp.size ELSE Min(inp.size, inp.arg)
RECURSIVE Run(_, _)
Run(i, pos) ==
  IF i > Len(inp.reads) THEN <<>>
  ELSE LET r == inp.reads[i] IN
    IF r.o = "seek"
    THEN LET p == CASE r.w = 0 -> r.a [] r.w = 1 -> pos + r.a [] r.w = 2 -> End + r.a [] OTHER -> -1
         IN IF p < 0 THEN <<<<-1, pos, 0>>>> \o Run(i + 1, pos) ELSE <<<<0, p, 0>>>> \o Run(i + 1, p)
    ELSE LET n == IF pos >= End THEN 0 ELSE IF r.a < 0 THEN End - pos ELSE Min(r.a, End - pos)
         IN <<<<1, pos, n>>>> \o Run(i + 1, pos + n)

Obs == [views |-> view, end |-> End, reads |-> Run(1, 0)]
Report == Finished => Out(cid, inp, Obs)

(* ---- what a user relies on ---- *)
Correct == \A i \in 1..Top : \A b \in Blocks \ st[i].e : \A h \in 1..2 :
             view[i][b][h] = IF st[i].own[b][h] # Null THEN st[i].own[b][h] ELSE st[i].snap[b][h]
\* What was unused is null, or something the volume or a newer store holds: never what another block of the snapshot held.
Unused == \A i \in 1..Top : \A b \in st[i].e : \A h \in 1..2 :
             LET x == view[i][b][h] IN x \in {Null, AnyValue} \/ x = st[i].own[b][h] \/ x = vol[b][h] \/ \E j \in i..Top : x = st[j].snap[b][h]
=============================================================================

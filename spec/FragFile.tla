------------------------------ MODULE FragFile ------------------------------
(* A file exposed over its data runs on a volume: a read-only file object.               *)
(* State: the position and the history of results so far.  Volume bytes are never zero,   *)
(* so that holes are distinguishable.                                                      *)
(* Distances do not matter: a volume pulled apart at cluster far.lcn by 2^far.exp clusters,  *)
(* or a hole (run gap.run) 2^gap.exp clusters longer, behave the same for every read that     *)
(* stays on one side, so that the model counts clusters and bytes with the gap left out.       *)
EXTENDS Emit, Bytes, FiniteSets

CONSTANTS CS, Offs, Lcns, Lens, MaxRuns, ReadArgs, SeekArgs, NOps, VolClusters

VARIABLES cid, inp, pos, k, out
vars == <<cid, inp, pos, k, out>>

SmallRuns == UNION { [1..n -> [lcn : Lcns, n : Lens]] : n \in 1..MaxRuns } \cup { <<>> }
SmallOps == { [o |-> "read", a |-> a, w |-> 0] : a \in ReadArgs }
        \cup { [o |-> "seek", a |-> a, w |-> w] : a \in SeekArgs, w \in 0..3 }
        \cup { [o |-> "tell", a |-> 0, w |-> 0] }

RECURSIVE SumLen(_, _)
SumLen(r, i) == IF i > Len(r) THEN 0 ELSE r[i].n + SumLen(r, i + 1)

Small == { x \in [cs : CS, voff : Offs, runs : SmallRuns, size : 0..(1 + SumLen([i \in 1..MaxRuns |-> [n |-> CHOOSE m \in Lens : \A q \in Lens : q <= m]], 1) * (CHOOSE c \in CS : \A d \in CS : d <= c)),
                  vol : VolClusters, far : {[lcn |-> 0, exp |-> 0]}, gap : {[run |-> 0, exp |-> 0]}, ops : [1..NOps -> SmallOps]] : x.size <= 1 + x.cs * SumLen(x.runs, 1) }

Init ==
  /\ \/ cid = 0 /\ inp \in Small
     \/ cid \in 1..Len(Cases) /\ inp = Cases[cid]
  /\ pos = 0 /\ k = 1 /\ out = <<>>

VolByte(j) == (((j * 31) + (j \div 250)) % 255) + 1

\* The physical cluster of virtual cluster v: -1 for a hole, -2 if there is none.
RECURSIVE Lookup(_, _)
Lookup(v, i) == IF i > Len(inp.runs) THEN -2
                ELSE IF v < inp.runs[i].n THEN (IF inp.runs[i].lcn = -1 THEN -1 ELSE inp.runs[i].lcn + v)
                ELSE Lookup(v - inp.runs[i].n, i + 1)
VolLen == inp.voff + (inp.vol * inp.cs) + (inp.cs \div 2)      \* the volume ends in the middle of a cluster
Readable(v) == LET l == Lookup(v, 1) IN l = -1 \/ (l >= 0 /\ inp.voff + ((l + 1) * inp.cs) <= VolLen)
FileByte(x) == LET l == Lookup(x \div inp.cs, 1) IN IF l = -1 THEN 0 ELSE VolByte(inp.voff + (l * inp.cs) + (x % inp.cs))

Op == inp.ops[k]
Step(r, p) == out' = Append(out, r) /\ pos' = p /\ k' = k + 1 /\ UNCHANGED <<cid, inp>>
Active == k <= Len(inp.ops) /\ (out # <<>> => out[Len(out)].t # "err")

Tell == Active /\ Op.o = "tell" /\ Step([t |-> "pos", p |-> pos, d |-> <<>>], pos)

Seek ==
  /\ Active /\ Op.o = "seek"
  /\ LET np == CASE Op.w = 0 -> Op.a [] Op.w = 1 -> pos + Op.a [] Op.w = 2 -> inp.size + Op.a [] OTHER -> -1
     IN IF np < 0 THEN Step([t |-> "bad", p |-> pos, d |-> <<>>], pos)       \* rejected, the position stays
        ELSE Step([t |-> "pos", p |-> np, d |-> <<>>], np)

Read ==
  /\ Active /\ Op.o = "read"
  /\ LET last == IF Op.a < 0 THEN inp.size ELSE Min(inp.size, pos + Op.a)    \* exclusive
     IN IF last <= pos THEN Step([t |-> "data", p |-> pos, d |-> <<>>], pos)
        ELSE IF \E v \in (pos \div inp.cs)..((last - 1) \div inp.cs) : ~Readable(v)
          THEN Step([t |-> "err", p |-> 0, d |-> <<>>], pos)
          ELSE Step([t |-> "data", p |-> last, d |-> [i \in 1..(last - pos) |-> FileByte(pos + i - 1)]], last)

Done == ~Active /\ UNCHANGED vars
Next == Tell \/ Seek \/ Read \/ Done
Spec == Init /\ [][Next]_vars

Report == ~Active => Out(cid, inp, out)

(* ---- what a user relies on ---- *)
NonNegative == pos >= 0
\* No byte past the declared size, no byte for an unmapped cluster.
InsideFile == \A i \in 1..Len(out) : (out[i].t = "data" /\ out[i].d # <<>>) => out[i].p <= inp.size
NeverLonger == \A i \in 1..Len(out) : (out[i].t = "data" /\ inp.ops[i].a >= 0) => Len(out[i].d) <= inp.ops[i].a
PositionsAddUp == \A i \in 2..Len(out) :
   (out[i].t = "data" /\ out[i-1].t \in {"pos", "data", "bad"}) => out[i].p = out[i-1].p + Len(out[i].d)
=============================================================================

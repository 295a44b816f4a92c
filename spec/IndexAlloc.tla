---------------------------- MODULE IndexAlloc -----------------------------
(* An index allocation: consecutive buffers of the size the first one declares; damaged    *)
(* buffers are left out, the rest are listed in order with their slack.                     *)
EXTENDS Emit, Integers, Sequences, FiniteSets

CONSTANTS Scope

VARIABLES cid, inp, k, out, st
vars == <<cid, inp, k, out, st>>

\* inp.bufs: [d: damage ("none", "torn", "sig", "usa"), ff: first free byte], inp.n: sectors per buffer, inp.part: trailing sectors, inp.decl: sectors the first buffer declares
Small == /\ Scope # "none"
         /\ \E m \in 0..3 : \E bs \in [1..m -> { [d |-> d, ff |-> f] : d \in {"none", "torn", "sig", "usa"}, f \in {40, 984, 992, 993, 1000, 4064, 5000} }], p \in {0, 1}, n \in {2, 8} :
              (Scope = "thorough" \/ m <= 2) /\ inp = [bufs |-> bs, n |-> n, part |-> p, decl |-> n]

Init ==
  /\ \/ cid = 0 /\ Small
     \/ cid \in 1..Len(Cases) /\ inp = Cases[cid]
  /\ k = 0 /\ out = <<>> /\ st = "open"

SizeKnown == Len(inp.bufs) > 0 /\ inp.bufs[1].d = "none" /\ inp.decl >= 2 /\ inp.decl = inp.n
Open == st = "open" /\ st' = (IF SizeKnown THEN "walk" ELSE "end") /\ UNCHANGED <<cid, inp, k, out>>
Size == inp.n * 512
Buffer == /\ st = "walk" /\ k < Len(inp.bufs)
          /\ k' = k + 1
          /\ out' = IF inp.bufs[k + 1].d = "none" THEN Append(out, [n |-> k, sl |-> IF 24 + inp.bufs[k + 1].ff >= Size THEN 0 ELSE Size - (24 + inp.bufs[k + 1].ff)]) ELSE out
          /\ UNCHANGED <<cid, inp, st>>
Last == st = "walk" /\ k = Len(inp.bufs) /\ st' = "end" /\ UNCHANGED <<cid, inp, k, out>>
Over == st = "end"
Done == Over /\ UNCHANGED vars
Next == Open \/ Buffer \/ Last \/ Done
Spec == Init /\ [][Next]_vars
\* Chunks of at most 8 bytes are not considered.
Obs == [st |-> st, size |-> IF SizeKnown THEN Size ELSE 0, b |-> out, slack |-> [j \in 1..Len(SelectSeq(out, LAMBDA o : o.sl > 8)) |-> SelectSeq(out, LAMBDA o : o.sl > 8)[j].sl]]
Report == Over => Out(cid, inp, Obs)
Intact == \A j \in 1..Len(out) : inp.bufs[out[j].n + 1].d = "none"
InOrder == \A i, j \in 1..Len(out) : i < j => out[i].n < out[j].n
=============================================================================

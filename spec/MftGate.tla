------------------------------ MODULE MftGate ------------------------------
(* Opening an $MFT: what has to be in place before any record is reported, and what is     *)
(* known before and after the scan for child segments.                                      *)
EXTENDS Emit, Mft, FiniteSets

CONSTANTS Scope       \* "none", "quick" or "thorough"

VARIABLES cid, inp, step, verdict, children
vars == <<cid, inp, step, verdict, children>>

(* sig: the first four bytes are those of a good segment; decl: the size segment 0 declares; *)
(* size: the real distance of the segments; segs: the segments; cut: bytes of the file that   *)
(* are missing at its end; vol: where the version numbers are ("plain", "late": after other    *)
(* resident attributes, "outside": only in a nonresident attribute, "none", "twice": two       *)
(* attributes, the first one counts); maj, min; pass: "auto", "never", "later".               *)
B(u, q) == [v |-> TRUE, use |-> u, dir |-> 0, seq |-> q, bn |-> 0, bs |-> 0, names |-> <<>>]
C(b, t) == [v |-> TRUE, use |-> 1, dir |-> 0, seq |-> 1, bn |-> b, bs |-> t, names |-> <<>>]
Bad == [v |-> FALSE, use |-> 1, dir |-> 0, seq |-> 1, bn |-> 0, bs |-> 0, names |-> <<>>]
I(sig, decl, size, segs, cut, vol, mj, mn, p) == [sig |-> sig, decl |-> decl, size |-> size, segs |-> segs, cut |-> cut, vol |-> vol, maj |-> mj, min |-> mn, pass |-> p]
Plain == <<B(1, 1), B(1, 2), C(1, 2), B(1, 3), C(1, 2), B(0, 5)>>
Small == IF Scope = "none" THEN {} ELSE
  { I(g, d, 1024, Plain, 0, "plain", 3, 1, "auto") : g \in {"FILE", "BAAD", "INDX", "\\0\\0\\0\\0", "FILF", "RCRD"}, d \in {0, 256, 512, 1023, 1024, 1025, 2048, 8192, 66560} }
  \cup { I("FILE", 4096, 4096, Plain, 0, "plain", 3, 1, "auto") }
  \cup { I("FILE", 1024, 1024, SubSeq(Plain, 1, n), c, "plain", 3, 1, "auto") : n \in 1..6, c \in {0, 1, 512, 1000, 1020} }
  \cup { I("FILE", 1024, 1024, SubSeq(Plain, 1, 1), c, "plain", 3, 1, "auto") : c \in {1024 - x : x \in {0, 3, 4, 27, 28, 30, 31, 32, 33, 47, 48}} }
  \cup { I("FILE", 1024, 1024, Plain, 0, v, a, b, p) : v \in {"plain", "late", "outside", "none", "twice"}, a \in {0, 1, 2, 3, 4, 255}, b \in {0, 1, 2, 255}, p \in {"auto", "never", "later"} }
  \cup { I("FILE", 1024, 1024, <<B(1, 1), a, b, c>> \o d, 0, v, 3, 1, p) : a \in {B(1, 2), Bad}, b \in {C(1, 2), C(3, 3), Bad}, c \in {B(1, 3), B(0, 4), Bad, C(1, 2)}, d \in {<<>>, <<C(3, 3), B(1, 7)>>}, v \in {"plain", "none"}, p \in {"auto", "never", "later"} }

Init ==
  /\ \/ cid = 0 /\ inp \in Small
     \/ cid \in 1..Len(Cases) /\ inp = Cases[cid]
  /\ step = "signature" /\ verdict = "?" /\ children = FALSE

Length == (Len(inp.segs) * inp.size) - inp.cut
Whole == Length \div inp.size                     \* complete segments
Tbl == SubSeq(inp.segs, 1, Whole)
Reject == step' = "over" /\ verdict' = "rejected" /\ UNCHANGED <<cid, inp, children>>
Go(s) == step' = s /\ UNCHANGED <<cid, inp, verdict, children>>
Check(s, t, c) == step = s /\ IF c THEN Go(t) ELSE Reject

Signature == Check("signature", "size", inp.sig = "FILE" /\ Length >= 4)
Size == Check("size", "volume", Length >= 32 /\ inp.decl \in {1024, 4096})
Volume == Check("volume", "info", Whole >= 4 /\ Seg(Tbl, 3).v)
Info == Check("info", "version", inp.vol \in {"plain", "late", "twice"})
Version == Check("version", "scan", inp.maj = 3 /\ inp.min >= 1)
First == /\ step = "scan"
         /\ step' = "over" /\ verdict' = "ok" /\ children' = (inp.pass # "never")
         /\ UNCHANGED <<cid, inp>>
Over == step = "over"
Done == Over /\ UNCHANGED vars
Next == Signature \/ Size \/ Volume \/ Info \/ Version \/ First \/ Done
Spec == Init /\ [][Next]_vars

(* What the opened table answers. Without the scan no child is known. *)
Parts(a) == IF children \/ a = <<>> THEN a ELSE <<a[1]>>
Bases == SelectSeq(Numbers(Tbl), LAMBDA n : Exists(Tbl, n) /\ IsBase(Tbl, n))
All == [k \in 1..Len(Bases) |-> Parts(Assembly(Tbl, Bases[k]))]
ByDefault(n) == LET r == ByNumber(Tbl, n, -1, TRUE) IN
  IF r = <<>> THEN r ELSE IF children THEN r ELSE IF IsBase(Tbl, n) THEN <<n>> ELSE <<>>
Valid == SelectSeq(Numbers(Tbl), LAMBDA n : Exists(Tbl, n))
Obs == IF verdict = "rejected" THEN [st |-> "rejected"]
  ELSE [st |-> "ok", all |-> All, n |-> [k \in 1..(Len(inp.segs) + 2) |-> ByDefault(k - 1)],
        stat |-> IF children THEN <<Len(Valid), Len(Valid) - Len(Bases)>> ELSE <<-1, -1>>]
Report == Over => Out(cid, inp, Obs)

(* ---- what a user relies on ---- *)
\* Nothing is reported of a file that is not an $MFT of a supported version.
Gate == verdict = "ok" => inp.sig = "FILE" /\ inp.decl \in {1024, 4096} /\ Whole >= 4 /\ inp.maj = 3 /\ inp.min >= 1
Ends == <>(step = "over")
=============================================================================

--------------------------------- MODULE USA ---------------------------------
(* Update sequence arrays: the protection of multi-sector structures against torn       *)
(* writes.  A structure of n sectors carries a sequence number and n replacement words;  *)
(* on disk the last word of each sector holds the sequence number.                        *)
(* kind: "frs" (file record segment), "idx" (index buffer), "idx1" (the first index       *)
(* buffer, which also gives the buffer size), "rec" (log record page), "rst" (log restart  *)
(* page).  The array may overlap a sector tail, therefore the memory is explicit.          *)
EXTENDS Emit, Bytes, FiniteSets

CONSTANTS Kinds, Ns, UOffs, USizeDeltas, TailVals, Layouts, Crcs

VARIABLES cid, inp, mem, i, st
vars == <<cid, inp, mem, i, st>>

USN == <<1, 2>>
Upd(n) == [k \in 1..n |-> <<100 + k, 200 - k>>]

\* Layout of a file record segment: first attribute, end marker, first free byte.
AlignUp(x) == ((x + 7) \div 8) * 8
Small == { x \in [kind : Kinds, n : Ns, uoff : UOffs, usz : { m + 1 + d : m \in Ns, d \in USizeDeltas }, usn : {USN}, upd : { Upd(n) : n \in Ns }, tails : UNION { [1..n -> TailVals] : n \in Ns }, lay : Layouts, crc : Crcs, sig : {"FILE"}] :
             /\ Len(x.upd) = x.n /\ Len(x.tails) = x.n /\ x.usz - (x.n + 1) \in USizeDeltas
             /\ (x.kind # "frs" => x.lay = CHOOSE l \in Layouts : TRUE)
             /\ (x.kind \in {"frs", "idx", "idx1"} => x.crc = "none")
             /\ (x.kind = "idx1" => x.usz = x.n + 1)
             /\ (x.kind = "rst" => x.n = 8)
             /\ (x.crc # "none" => x.n >= 3 /\ x.usz = x.n + 1) }

Size == inp.n * 512
TailAt(s) == (s * 512) - 2

\* Initial memory: the array, then the sector tails on top of it.
ArrByte(a) == LET o == a - inp.uoff w == o \div 2 b == (o % 2) + 1
              IN IF w = 0 THEN inp.usn[b] ELSE IF w <= inp.n THEN inp.upd[w][b] ELSE 0
Addrs == { TailAt(s) : s \in 1..inp.n } \cup { TailAt(s) + 1 : s \in 1..inp.n } \cup (inp.uoff..(inp.uoff + (2 * inp.n) + 1))
Mem0 == [a \in Addrs |-> IF a % 512 >= 510 /\ a < Size THEN inp.tails[(a \div 512) + 1][(a % 512) - 509] ELSE ArrByte(a)]

Init ==
  /\ \/ cid = 0 /\ inp \in Small
     \/ cid \in 1..Len(Cases) /\ inp = Cases[cid]
  /\ mem = Mem0 /\ i = 0 /\ st = "run"

MinOff == CASE inp.kind = "frs" -> 42 [] inp.kind \in {"idx", "idx1"} -> 40 [] OTHER -> 8
SigOK == inp.kind = "frs" => inp.sig \in {"FILE", "BAAD", "CHKD"}
ArrayOK == SigOK /\ inp.uoff >= MinOff /\ inp.uoff <= 506 /\ inp.usz = inp.n + 1 /\ inp.uoff + (inp.usz * 2) < Size
FFB == IF inp.kind = "frs" THEN inp.lay.ffb ELSE Size

\* Layout of the record segment: first attribute right after the array, value up to the end marker.
Fao == AlignUp(inp.uoff + (inp.usz * 2))
HeaderOK == inp.kind = "frs" => FFB >= 42 /\ FFB <= Size /\ Fao <= Size - 24

Start == /\ st = "run" /\ i = 0
         /\ IF ~ArrayOK THEN st' = "reject" /\ UNCHANGED i
            ELSE IF inp.crc = "good" THEN st' = "ok" /\ UNCHANGED i     \* protected by a checksum instead
            ELSE i' = 1 /\ UNCHANGED st
         /\ UNCHANGED <<cid, inp, mem>>

Word(a) == <<mem[a], mem[a + 1]>>
Finish == st' = (IF HeaderOK THEN "ok" ELSE "reject")
Sector ==
  /\ st = "run" /\ i >= 1
  /\ IF i > inp.n THEN Finish /\ UNCHANGED <<mem, i>>
     ELSE IF Word(TailAt(i)) = Word(inp.uoff)
       THEN /\ mem' = [mem EXCEPT ![TailAt(i)] = mem[inp.uoff + (2 * i)], ![TailAt(i) + 1] = mem[inp.uoff + (2 * i) + 1]]
            /\ i' = i + 1 /\ UNCHANGED st
       ELSE IF (i - 1) * 512 < FFB THEN st' = "reject" /\ UNCHANGED <<mem, i>>   \* used data is torn
       ELSE Finish /\ UNCHANGED <<mem, i>>                                        \* only free space is
  /\ UNCHANGED <<cid, inp>>

Done == st # "run" /\ UNCHANGED vars
Next == Start \/ Sector \/ Done
Spec == Init /\ [][Next]_vars

\* Which sector tails a user can see: in the attribute value or in the slack of a record segment.
Endp == IF inp.lay.attr THEN Max(Fao + 24, inp.lay.endp) ELSE Fao
Visible(s) == inp.kind # "frs" \/ (Endp < FFB /\ ((TailAt(s) >= Fao + 24 /\ TailAt(s) < Endp) \/ TailAt(s) >= Endp + 4))
Obs == [st |-> st, tails |-> IF st = "ok" THEN [s \in 1..inp.n |-> IF Visible(s) THEN Word(TailAt(s)) ELSE <<>>] ELSE <<>>]
Report == st # "run" => Out(cid, inp, Obs)

(* ---- what a user relies on ---- *)
Overlap == inp.uoff + (2 * inp.usz) > 510
NoTornData == (st = "ok" /\ inp.crc # "good") => \A s \in 1..inp.n : ((s - 1) * 512 < FFB /\ ~Overlap) => inp.tails[s] = inp.usn
Restored == (st = "ok" /\ inp.crc # "good" /\ ~Overlap) => \A s \in 1..inp.n : ((s - 1) * 512 < FFB) => Word(TailAt(s)) = inp.upd[s]
IntactAccepted == (st = "reject" /\ ArrayOK /\ HeaderOK /\ ~Overlap) => \E s \in 1..inp.n : inp.tails[s] # inp.usn
=============================================================================

---------------------------- MODULE BootSector -----------------------------
(* The geometry an NTFS boot sector encodes. Sizes are written m * 2^e with m odd.          *)
EXTENDS Emit, Bytes, FiniteSets

CONSTANTS Scope

VARIABLES cid, inp, st, geo
vars == <<cid, inp, st, geo>>

Base == [len |-> 512, oem |-> TRUE, b11 |-> 0, b12 |-> 2, b13 |-> 8, total |-> <<0, 0, 16, 0, 0, 0, 0, 0>>, mft |-> <<4, 0, 0, 0, 0, 0, 0, 0>>, mirr |-> <<2, 0, 0, 0, 0, 0, 0, 0>>, f |-> 246, x |-> 1, jmp |-> TRUE, sig |-> TRUE]
Codes == {0, 1, 2, 4, 127, 128, 129, 244, 246, 255}
Small == /\ Scope # "none"
         /\ \/ \E a \in 0..255, b \in {0, 1, 2, 3, 4, 8, 16, 32, 127, 128, 255}, c \in {0, 1, 128} : inp = [Base EXCEPT !.b13 = a, !.b12 = b, !.b11 = c]
            \/ \E a \in 0..255, b \in {1, 8, 128, 129, 244, 255}, c \in {2, 3, 16} : inp = [Base EXCEPT !.f = a, !.x = 255 - a, !.b13 = b, !.b12 = c]
            \/ \E n \in {0, 1, 511, 512, 513, 1024, 1536}, o \in BOOLEAN, j \in BOOLEAN, s \in BOOLEAN : inp = [Base EXCEPT !.len = n, !.oem = o, !.jmp = j, !.sig = s]
            \/ \E k \in 1..8, v \in {0, 1, 255}, w \in 1..8 : inp = [Base EXCEPT !.total = [WZero(8) EXCEPT ![k] = v], !.mft = [WZero(8) EXCEPT ![w] = v], !.mirr = [WZero(8) EXCEPT ![k] = 255 - v, ![w] = v]]

RECURSIVE Odd(_, _)
Odd(m, e) == IF m = 0 THEN <<0, 0>> ELSE IF m % 2 = 0 THEN Odd(m \div 2, e + 1) ELSE <<m, e>>
Mul(a, b) == Odd(a[1] * b[1], a[2] + b[2])
Err == <<-1, 0>>

Init ==
  /\ \/ cid = 0 /\ Small
     \/ cid \in 1..Len(Cases) /\ inp = Cases[cid]
  /\ st = "read" /\ geo = [bps |-> Err, spc |-> Err, frs |-> Err, idx |-> Err]

Bps == IF inp.b11 # 0 \/ inp.b12 < 2 \/ inp.b12 % 2 # 0 THEN Err ELSE Odd(inp.b12, 8)
Spc == IF inp.b13 = 0 THEN Err ELSE IF inp.b13 <= 128 THEN Odd(inp.b13, 0) ELSE <<1, 256 - inp.b13>>
Sized(c) == IF c >= 128 THEN <<1, 256 - c>>
            ELSE IF Bps = Err \/ Spc = Err \/ c = 0 THEN Err
            ELSE Mul(Mul(Odd(c, 0), Spc), Bps)

Read == /\ st = "read"
        /\ IF inp.len < 512 \/ inp.len % 512 # 0 \/ ~inp.oem THEN st' = "reject" /\ UNCHANGED geo
           ELSE st' = "ok" /\ geo' = [bps |-> Bps, spc |-> Spc, frs |-> Sized(inp.f), idx |-> Sized(inp.x)]
        /\ UNCHANGED <<cid, inp>>
Over == st # "read"
Done == Over /\ UNCHANGED vars
Next == Read \/ Done
Spec == Init /\ [][Next]_vars

NZ(w) == IF WIsZero(w) THEN <<>> ELSE w
Obs == IF st = "reject" THEN [st |-> st] ELSE [st |-> st, geo |-> geo, total |-> NZ(inp.total), mft |-> NZ(inp.mft), mirr |-> NZ(inp.mirr), code |-> inp.jmp /\ inp.sig]
Report == Over => Out(cid, inp, Obs)
\* A sector size is always a multiple of 512, whatever the bytes say.
SectorSize == st = "ok" /\ geo.bps # Err => geo.bps[2] >= 9
NonZero == \A k \in DOMAIN geo : geo[k][1] # 0
=============================================================================

-------------------------------- MODULE Emit --------------------------------
(* Binding of a specification to the harness: inputs recorded by the harness come in      *)
(* through the file named by the environment variable CASES (one JSON object per line),    *)
(* completed behaviours go out as one line each.                                           *)
EXTENDS TLC, Json, IOUtils, Sequences

Cases == IF "CASES" \in DOMAIN IOEnv THEN ndJsonDeserialize(IOEnv.CASES) ELSE <<>>
Out(cid, inp, obs) == PrintT("@@" \o ToJson([id |-> cid, inp |-> IF cid = 0 THEN inp ELSE 0, obs |-> obs]))
=============================================================================

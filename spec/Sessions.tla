------------------------------ MODULE Sessions ------------------------------
(* Sessions of use: two parsers of one kind share one file object; a session is a history of calls,  *)
(* some of which are enumerations that are advanced step by step, left alone while others go on,       *)
(* finished, or abandoned. The device below only ever positions and reads.                              *)
EXTENDS Emit, Bytes, FiniteSets

CONSTANTS Scope, MaxLen, Sets

VARIABLES cid, inp, h, open, disk, head, calls, got, st
vars == <<cid, inp, h, open, disk, head, calls, got, st>>
\* Sets  the kinds of parsers: [k: name; runs: number of plain calls (operations 1..runs); all: number of operations (the others are enumerations);
\*                              alone: whether one parser serves one call at a time (one enumeration of it is over before the next call on it)]
\* inp   [k: kind; plan: the session: <<[a, g, o]>>; filled in as it goes, if it is not given]
\* open  enumerations that are under way: <<[g, o, n, seen]>> (parser, operation, steps made, what was answered)
\* disk  the evidence; head: where the device is; calls: what was asked of it; got: answers given in full
Set(k) == CHOOSE s \in Sets : s.k = k
Cells == 12
Fresh == [i \in 1..Cells |-> (i * i) % 7]
\* Where an operation looks (its steps in order); a step positions the device itself.
Need(o) == [i \in 1..3 |-> 1 + (((o * 5) + (i * 4)) % Cells)]
Look(o, i) == disk[Need(o)[i]]
Whole(o) == [i \in 1..3 |-> Fresh[Need(o)[i]]]
Busy(g) == { i \in DOMAIN open : open[i].g = g }
RemoveOne(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

Init == /\ IF Scope = "none" THEN cid \in 1..Len(Cases) /\ inp = [k |-> Cases[cid].k, plan |-> Cases[cid].plan]
           ELSE (\E s \in Sets : cid = 0 /\ inp = [k |-> s.k, plan |-> <<>>]) \/ (cid \in 1..Len(Cases) /\ inp = [k |-> Cases[cid].k, plan |-> Cases[cid].plan])
        /\ h = <<>> /\ open = <<>> /\ disk = Fresh /\ head = 1 /\ calls = {} /\ got = <<>> /\ st = "on"
Most == IF cid = 0 THEN MaxLen ELSE Len(inp.plan)
Take(step) == /\ st = "on" /\ Len(h) < Most
              /\ IF cid = 0 THEN TRUE ELSE inp.plan[Len(h) + 1] = step
              /\ cid = 0 => \* the first parser is used first
                   (Len(h) = 0 => step.g = 1)
              /\ h' = Append(h, step) /\ inp' = IF cid = 0 THEN [inp EXCEPT !.plan = Append(@, step)] ELSE inp
              /\ UNCHANGED <<cid, st>>
Asked == calls' = calls \cup {"seek", "read"} /\ UNCHANGED disk
Free(g) == Set(inp.k).alone => Busy(g) = {}
Run == \E g \in 1..2, o \in 1..Set(inp.k).runs :
         /\ Free(g) /\ Take([a |-> "run", g |-> g, o |-> o])
         /\ got' = Append(got, <<g, o, [i \in 1..3 |-> Look(o, i)]>>) /\ head' = Need(o)[3] + 1 /\ Asked /\ UNCHANGED open
Start == \E g \in 1..2, o \in (Set(inp.k).runs + 1)..Set(inp.k).all :
         /\ Free(g) /\ Take([a |-> "open", g |-> g, o |-> o])
         /\ open' = Append(open, [g |-> g, o |-> o, n |-> 1, seen |-> <<Look(o, 1)>>]) /\ head' = Need(o)[1] + 1 /\ Asked /\ UNCHANGED got
Step == \E i \in DOMAIN open :
         /\ open[i].n < 2 /\ Take([a |-> "step", g |-> i, o |-> 0])
         /\ LET e == open[i] IN open' = [open EXCEPT ![i] = [e EXCEPT !.n = @ + 1, !.seen = Append(@, Look(e.o, e.n + 1))]] /\ head' = Need(e.o)[e.n + 1] + 1
         /\ Asked /\ UNCHANGED got
Rest(i) == LET e == open[i] IN <<e.g, e.o, e.seen \o [j \in 1..(3 - e.n) |-> Look(e.o, e.n + j)]>>
Finish == \E i \in DOMAIN open :
         /\ Take([a |-> "rest", g |-> i, o |-> 0])
         /\ got' = Append(got, Rest(i)) /\ open' = RemoveOne(open, i) /\ head' = Need(open[i].o)[3] + 1 /\ Asked
Drop == \E i \in DOMAIN open :
         /\ Take([a |-> "drop", g |-> i, o |-> 0])
         /\ open' = RemoveOne(open, i) /\ UNCHANGED <<disk, head, calls, got>>
\* What is still under way in the end is finished, in order.
End == /\ st = "on" /\ Len(h) = Most /\ st' = "over"
       /\ got' = got \o [i \in DOMAIN open |-> Rest(i)] /\ open' = <<>>
       /\ Asked /\ UNCHANGED <<cid, inp, h, head>>
Over == st = "over"
Done == Over /\ UNCHANGED vars
Next == Run \/ Start \/ Step \/ Finish \/ Drop \/ End \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Obs == [answers |-> [i \in DOMAIN got |-> <<got[i][1], got[i][2], IF got[i][3] = Whole(got[i][2]) THEN "same" ELSE "other">>], intact |-> disk = Fresh, asked |-> calls \ {"seek", "tell", "read"}]
Report == Over => Out(cid, inp, Obs)

(* ---- what a user relies on ---- *)
Ends == <>(st = "over")
Intact == disk = Fresh
OnlyRead == calls \subseteq {"seek", "tell", "read"}
SameAnswer == \A i \in DOMAIN got : got[i][3] = Whole(got[i][2])
=============================================================================

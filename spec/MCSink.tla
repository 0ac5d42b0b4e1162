------------------------------- MODULE MCSink -------------------------------
(* Delivering an object to a sink that may take only a part of what it is     *)
(* offered, be interrupted, or refuse (C06).  `len` is the size of the object *)
(* in blocks, the sink takes at most `chunk` blocks at once and has room for  *)
(* `room0` blocks in all.  The sink may be a file that holds `pre` blocks     *)
(* already, to be written from block `at` on, or at its end (`app`).          *)
(* `Design` is how the writer behaves: "all" is the one that must be found    *)
(* sound, the others are errors that must be noticed.                         *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS MaxLen, MaxPre, Design

VARIABLES len, chunk, room0, pre, at, app, taken, out, intr, file, pos
vars == <<len, chunk, room0, pre, at, app, taken, out, intr, file, pos>>

Min(x, y) == IF x < y THEN x ELSE y
Max(x, y) == IF x > y THEN x ELSE y
Hole == 0
Old == 1
Block(i) == 1 + i
Before(n) == [i \in 1..n |-> Old]

Init == /\ len \in 0..MaxLen /\ chunk \in 1..MaxLen /\ room0 \in 0..(MaxLen + 1)
        /\ pre \in 0..MaxPre /\ at \in 0..(MaxPre + 1) /\ app \in BOOLEAN
        /\ (pre = 0 /\ at = 0 /\ ~app) \/ (room0 > len /\ (app => at = 0))    \* pipes and full devices have no contents
        /\ taken = 0 /\ out = "busy" /\ intr \in 0..1
        /\ file = (IF Design = "truncates" THEN <<>> ELSE Before(pre))
        /\ pos = (CASE Design = "rewinds" -> 0 [] Design = "appends" -> pre [] OTHER -> at)
Frame == UNCHANGED <<len, chunk, room0, pre, at, app>>
Rest == UNCHANGED <<file, pos>>
Interrupted == out = "busy" /\ intr > 0 /\ taken < len /\ intr' = intr - 1 /\ Frame /\ Rest /\ UNCHANGED <<taken>>
               /\ out' = IF Design = "gives-up" THEN "ok" ELSE "busy"
(* the sink puts the next n blocks of the object where the position is; what lies between the end and the position becomes a hole *)
Put(n) == LET p == IF app THEN Len(file) ELSE pos IN
          /\ file' = [i \in 1..Max(Len(file), p + n) |-> IF i > p /\ i <= p + n THEN Block(taken + i - p)
                                                          ELSE IF i <= Len(file) THEN file[i] ELSE Hole]
          /\ pos' = p + n
Take == /\ out = "busy" /\ taken < len /\ room0 > taken
        /\ LET n == Min(chunk, Min(len - taken, room0 - taken)) IN taken' = taken + n /\ Put(n)
        /\ out' = IF Design = "once" THEN "ok" ELSE "busy"
        /\ Frame /\ UNCHANGED intr
Refuse == /\ out = "busy" /\ taken < len /\ room0 = taken
          /\ out' = IF Design = "ignores" THEN "ok" ELSE "io"
          /\ Frame /\ Rest /\ UNCHANGED <<taken, intr>>
Finish == out = "busy" /\ taken = len /\ out' = "ok" /\ Frame /\ Rest /\ UNCHANGED <<taken, intr>>
Next == Interrupted \/ Take \/ Refuse \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Delivered == out = "ok" => taken = len
Reported == out = "io" => taken < len /\ room0 < len
NeverMore == taken <= len
Ends == <>(out # "busy")
(* the object is where the position was, and everything else in the file is as it was *)
Begin == IF app THEN pre ELSE at
Placed == out = "ok" => file = [i \in 1..(IF len = 0 THEN pre ELSE Max(pre, Begin + len)) |->
                                IF i > Begin /\ i <= Begin + len THEN Block(i - Begin) ELSE IF i <= pre THEN Old ELSE Hole]
Emit == out = "busy" \/ PrintT("STATE " \o ToJson([len |-> len, room |-> room0, out |-> out, pre |-> pre, at |-> at, app |-> app]))
=============================================================================

------------------------------ MODULE LimitsTour ------------------------------
(* Sequential programs of opens, failing opens and closes, for the driver.   *)
EXTENDS ReadFiles, Sequences, TLC, Json
CONSTANTS M, F, MaxOpen, MaxSteps
VARIABLES hs, steps, last      \* hs: backings of the open files, oldest first
vars == <<hs, steps, last>>
Cnt(b) == Len(SelectSeq(hs, LAMBDA x : x = b))
Init == hs = <<>> /\ steps = 0 /\ last = "\"\""
Do(t) == steps < MaxSteps /\ steps' = steps + 1 /\ last' = ToJson(t)
Back(empty) == IF ~empty /\ Cnt("m") < M THEN "m" ELSE IF Cnt("f") < F THEN "f" ELSE "n"
Open == Len(hs) < MaxOpen /\ Do("open") /\ hs' = Append(hs, Back(FALSE))
Empty == Len(hs) < MaxOpen /\ Do("empty") /\ hs' = Append(hs, Back(TRUE))
Fails == \E t \in {"miss", "nostat", "nomap"} : Do(t) /\ UNCHANGED hs
Close(i) == i <= Len(hs) /\ Do("close:" \o ToString(i)) /\ hs' = SubSeq(hs, 1, i - 1) \o SubSeq(hs, i + 1, Len(hs))
Next == Open \/ Empty \/ Fails \/ \E i \in 1..MaxOpen : Close(i)
Spec == Init /\ [][Next]_vars
Inv == Within(Cnt("m"), Cnt("f"), M, F)
=============================================================================

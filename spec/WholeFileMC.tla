----------------------------- MODULE WholeFileMC -----------------------------
(* The helpers' code against the protocol, with every outcome of every call; *)
(* also enumerates the outcomes for the driver.                              *)
EXTENDS WholeFile, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen,
          Removes    \* FALSE: wrong variant that leaves a partial file
VARIABLES s, pc, file, ret, got, prog
vars == <<s, pc, file, ret, got, prog>>
\* file: contents in the environment, or "none"; prog: outcomes so far
Content(n) == IF n = 0 THEN <<>> ELSE IF n = 1 THEN <<<<1, 1>>>> ELSE <<<<1, 1>>, <<2, n - 1>>>>
Init == \E k \in {"write", "read"}, n \in 0..MaxLen, y \in BOOLEAN :
   /\ (k = "read" => ~y) /\ s = Start(k, Content(n), y) /\ pc = "new"
   /\ file = (IF k = "read" THEN [c |-> Content(n)] ELSE [none |-> 0]) /\ ret = "" /\ got = <<>>
   /\ prog = <<k \o (IF y THEN "sync" ELSE "") \o ":" \o ToString(n)>>
Make(e, to, fail) ==
  /\ Assert(Can(s, e), <<"protocol", s, e>>)
  /\ s' = Next_(s, e) /\ pc' = (IF e.st = "" THEN to ELSE fail)
  /\ ret' = (IF e.st # "" /\ e.o # "remove" THEN e.st ELSE ret)
Out == {"", "err"}
Note(t, st) == prog' = Append(prog, t \o (IF st = "" THEN "+" ELSE "-"))
New(st) ==
  /\ pc = "new" /\ Make([o |-> "new", st |-> st], IF s.kind = "write" THEN "append" ELSE "read", "ret") /\ Note("n", st)
  /\ file' = (IF s.kind = "write" /\ st = "" THEN [c |-> <<>>] ELSE file) /\ UNCHANGED got
AppendAll(st) ==
  /\ pc = "append" /\ Make([o |-> "append", st |-> st, d |-> s.d], IF s.sync THEN "sync" ELSE "close", "delete") /\ Note("a", st)
  /\ file' = (IF st = "" THEN [c |-> s.d] ELSE [c |-> Take(s.d, 1)]) /\ UNCHANGED got
Sync(st) == pc = "sync" /\ Make([o |-> "sync", st |-> st], "close", "delete") /\ Note("s", st) /\ UNCHANGED <<file, got>>
Close(st) == pc = "close" /\ Make([o |-> "close", st |-> st], "delete", "delete") /\ Note("c", st) /\ UNCHANGED <<file, got>>
Delete == /\ pc = "delete" /\ Make([o |-> "delete", st |-> ""], IF ret # "" /\ s.kind = "write" /\ Removes THEN "remove" ELSE "ret", "ret")
          /\ UNCHANGED <<file, got, prog>>
Remove(st) == /\ pc = "remove" /\ Make([o |-> "remove", st |-> st, same |-> TRUE], "ret", "ret") /\ Note("r", st)
              /\ file' = (IF st = "" THEN [none |-> 0] ELSE file) /\ UNCHANGED got
Read(k, st) ==
  /\ pc = "read" /\ (st # "" => k = 0) /\ (st = "" => k <= Size(file.c) - Size(got) /\ (k = 0 => Size(got) = Size(file.c)))
  /\ LET d == IF st = "" THEN Slice(file.c, Size(got), k) ELSE <<>> IN
       /\ Make([o |-> "read", n |-> 2, st |-> st, d |-> d], IF d = <<>> THEN "delete" ELSE "read", "delete")
       /\ got' = Cat(got, d)
  /\ prog' = Append(prog, IF st = "" THEN "k" \o ToString(k) ELSE "k-") /\ UNCHANGED file
Return ==
  /\ pc = "ret" /\ Assert(~Removes \/ Done(s, [st |-> ret, d |-> got]), <<"return", s, ret>>)
  /\ pc' = "end" /\ UNCHANGED <<s, file, ret, got, prog>>
Next == \/ \E st \in Out : New(st) \/ AppendAll(st) \/ Sync(st) \/ Close(st) \/ Remove(st)
        \/ Delete \/ Return \/ \E k \in 0..2, st \in Out : Read(k, st)
Spec == Init /\ [][Next]_vars
WriteRight == pc = "end" /\ s.kind = "write" =>
   IF ret = "" THEN file = [c |-> s.d] ELSE (file = [none |-> 0] \/ prog[Len(prog)] = "r-")
ReadRight == pc = "end" /\ s.kind = "read" /\ ret = "" => got = file.c
=============================================================================

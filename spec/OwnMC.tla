-------------------------------- MODULE OwnMC --------------------------------
(***************************************************************************)
(* Threads that call functions and use objects of their own, or read       *)
(* shared immutable values.  An operation reads its operand (an argument,  *)
(* its object or a shared value), works on it in scratch memory in several *)
(* steps and answers.  Where things are kept is what makes this safe:      *)
(*   Scratch  where the working memory is: per call ("own") or "static"    *)
(*   State    where an object keeps its state: in itself or "static"       *)
(*   Const    what a const method does: nothing ("pure"), or remembers the *)
(*            answer in the object ("memo")                                *)
(* With everything else the answers of one thread depend on another's.     *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Threads, Args, MaxOps, Scratch, State, Const
VARIABLES th,      \* thread -> [pc, o, a, ops, tmp]
          scr,     \* scratch location -> contents
          obj,     \* object location -> contents
          mem,     \* what the shared value's const method remembers (0: nothing)
          want,    \* history: thread -> what its own object must hold
          bad,     \* a wrong answer was given
          acc      \* location -> the accesses <<thread, write>> made to it
vars == <<th, scr, obj, mem, want, bad, acc>>
Shared == 7                                     \* the shared immutable value
F(x) == 10 * x                                  \* what the functions compute
ScrOf(t) == IF Scratch = "own" THEN t ELSE 0
ObjOf(t) == IF State = "own" THEN t ELSE 0
Loc == 0..Cardinality(Threads)
Touch(t, where, wr) == acc' = [acc EXCEPT ![where] = @ \cup {<<t, wr>>}]
Touch2(t, w1, x1, w2, x2) == acc' = [[acc EXCEPT ![w1] = @ \cup {<<t, x1>>}] EXCEPT ![w2] = @ \cup {<<t, x2>>}]
Idle == [pc |-> "idle", o |-> "none", a |-> 0, ops |-> 0]
Init == /\ th = [t \in Threads |-> Idle] /\ scr = [x \in Loc |-> 0] /\ obj = [x \in Loc |-> 0] /\ mem = <<0, 0>>
        /\ want = [t \in Threads |-> 0] /\ bad = FALSE
        /\ acc = [x \in {<<k, i>> : k \in {"scr", "obj"}, i \in Loc} \cup {<<"memo", 0>>, <<"value", 0>>} |-> {}]
Call(t) == /\ th[t].pc = "idle" /\ th[t].ops < MaxOps
           /\ \E o \in {"pure", "own", "const"}, a \in Args :
                th' = [th EXCEPT ![t] = [@ EXCEPT !.pc = "work", !.o = o, !.a = IF o = "const" THEN 0 ELSE a, !.ops = @ + 1]]
           /\ UNCHANGED <<scr, obj, mem, want, bad, acc>>
\* the operand is prepared in scratch memory
Work(t) ==
  /\ th[t].pc = "work"
  /\ scr' = [scr EXCEPT ![ScrOf(t)] = CASE th[t].o = "pure" -> th[t].a [] th[t].o = "own" -> obj[ObjOf(t)] + th[t].a [] th[t].o = "const" -> Shared]
  /\ (IF th[t].o = "own" THEN Touch2(t, <<"scr", ScrOf(t)>>, TRUE, <<"obj", ObjOf(t)>>, FALSE)
      ELSE IF th[t].o = "const" THEN Touch2(t, <<"scr", ScrOf(t)>>, TRUE, <<"value", 0>>, FALSE)
      ELSE Touch(t, <<"scr", ScrOf(t)>>, TRUE))
  /\ th' = [th EXCEPT ![t].pc = "store"] /\ UNCHANGED <<obj, mem, want, bad>>
\* an object's new state is written; a const method may remember (in two parts)
Store(t) ==
  /\ th[t].pc = "store"
  /\ (IF th[t].o = "own"
      THEN /\ obj' = [obj EXCEPT ![ObjOf(t)] = scr[ScrOf(t)]] /\ want' = [want EXCEPT ![t] = @ + th[t].a]
           /\ Touch2(t, <<"obj", ObjOf(t)>>, TRUE, <<"scr", ScrOf(t)>>, FALSE) /\ UNCHANGED mem
      ELSE IF th[t].o = "const" /\ Const = "memo"
      THEN /\ (\/ mem[1] = 0 /\ mem' = <<1, mem[2]>> /\ acc' = [acc EXCEPT ![<<"memo", 0>>] = @ \cup {<<t, TRUE>>}]
               \/ mem[1] # 0 /\ mem' = mem /\ acc' = [acc EXCEPT ![<<"memo", 0>>] = @ \cup {<<t, FALSE>>}]) /\ UNCHANGED <<obj, want>>
      ELSE UNCHANGED <<obj, mem, want, acc>>)
  /\ th' = [th EXCEPT ![t].pc = IF th[t].o = "const" /\ Const = "memo" /\ mem[1] = 0 THEN "fill" ELSE "answer"]
  /\ UNCHANGED <<scr, bad>>
Fill(t) == /\ th[t].pc = "fill" /\ mem' = <<1, F(Shared)>> /\ acc' = [acc EXCEPT ![<<"memo", 0>>] = @ \cup {<<t, TRUE>>}]
           /\ th' = [th EXCEPT ![t].pc = "answer"] /\ UNCHANGED <<scr, obj, want, bad>>
Answer(t) ==
  /\ th[t].pc = "answer"
  /\ LET r == IF th[t].o = "const" /\ Const = "memo" THEN mem[2] ELSE F(scr[ScrOf(t)])
         right == CASE th[t].o = "pure" -> F(th[t].a) [] th[t].o = "own" -> F(want[t]) [] th[t].o = "const" -> F(Shared)
     IN bad' = (bad \/ r # right)
  /\ (IF th[t].o = "const" /\ Const = "memo" THEN acc' = [acc EXCEPT ![<<"memo", 0>>] = @ \cup {<<t, FALSE>>}] ELSE Touch(t, <<"scr", ScrOf(t)>>, FALSE))
  /\ th' = [th EXCEPT ![t].pc = "idle", ![t].o = "none", ![t].a = 0] /\ UNCHANGED <<scr, obj, mem, want>>
Next == \E t \in Threads : Call(t) \/ Work(t) \/ Store(t) \/ Fill(t) \/ Answer(t)
Spec == Init /\ [][Next]_vars
\* every answer is the one the thread would get alone
AsAlone == ~bad
Holds == \A t \in Threads : th[t].pc = "idle" => obj[ObjOf(t)] = want[t]
\* nothing synchronizes the threads: what one writes, no other touches
NoSharing == \A x \in DOMAIN acc : \A p, q \in acc[x] : p[1] # q[1] => ~p[2] /\ ~q[2]
=============================================================================

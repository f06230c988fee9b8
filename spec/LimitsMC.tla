------------------------------- MODULE LimitsMC -------------------------------
(***************************************************************************)
(* The two limiters of util/env_posix.cc, one atomic step at a time, under *)
(* threads that open (with failures), read and close files.                *)
(* Atomic: TRUE as in the code (fetch_sub/fetch_add); FALSE: load, store.  *)
(* BackOff: on failure of a mapping the right to it is returned.           *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC, Json
CONSTANTS T, M, F, MaxFiles, Atomic, BackOff
VARIABLES am, af,     \* acquires allowed
          pc, reg,    \* per thread: program counter, register
          held        \* per thread: set of backings of its open files, as counts [m, f, n]
vars == <<am, af, pc, reg, held>>
Init == /\ am = M /\ af = F /\ pc = [t \in T |-> "idle"] /\ reg = [t \in T |-> 0]
        /\ held = [t \in T |-> [m |-> 0, f |-> 0, n |-> 0]]
Files(t) == held[t].m + held[t].f + held[t].n
Go(t, s) == pc' = [pc EXCEPT ![t] = s]
Open(t) == pc[t] = "idle" /\ Files(t) < MaxFiles /\ Go(t, "am") /\ UNCHANGED <<am, af, reg, held>>
\* Limiter::Acquire on the map limiter
AcqM(t) ==
  /\ pc[t] = "am" /\ UNCHANGED <<af, held>>
  /\ IF Atomic THEN am' = am - 1 /\ reg' = [reg EXCEPT ![t] = am] /\ Go(t, "tm")
     ELSE reg' = [reg EXCEPT ![t] = am] /\ Go(t, "sm") /\ UNCHANGED am
StoreM(t) == pc[t] = "sm" /\ am' = reg[t] - 1 /\ Go(t, "tm") /\ UNCHANGED <<af, reg, held>>
TestM(t) ==
  /\ pc[t] = "tm" /\ UNCHANGED <<af, reg, held>>
  /\ IF reg[t] > 0 THEN Go(t, "map") /\ UNCHANGED am ELSE am' = am + 1 /\ Go(t, "af")
Map(t, okay) ==
  /\ pc[t] = "map" /\ UNCHANGED <<af, reg>>
  /\ IF okay THEN held' = [held EXCEPT ![t].m = @ + 1] /\ Go(t, "idle") /\ UNCHANGED am
     ELSE am' = (IF BackOff THEN am + 1 ELSE am) /\ Go(t, "idle") /\ UNCHANGED held
\* Limiter::Acquire on the descriptor limiter; the descriptor is open meanwhile
AcqF(t) == pc[t] = "af" /\ af' = af - 1 /\ reg' = [reg EXCEPT ![t] = af] /\ Go(t, "tf") /\ UNCHANGED <<am, held>>
TestF(t) ==
  /\ pc[t] = "tf" /\ UNCHANGED <<am, reg>> /\ Go(t, "idle")
  /\ IF reg[t] > 0 THEN held' = [held EXCEPT ![t].f = @ + 1] /\ UNCHANGED af
     ELSE af' = af + 1 /\ held' = [held EXCEPT ![t].n = @ + 1]
CloseM(t) == pc[t] = "idle" /\ held[t].m > 0 /\ held' = [held EXCEPT ![t].m = @ - 1] /\ Go(t, "relm") /\ UNCHANGED <<am, af, reg>>
RelM(t) == pc[t] = "relm" /\ am' = am + 1 /\ Go(t, "idle") /\ UNCHANGED <<af, reg, held>>
CloseF(t) == pc[t] = "idle" /\ held[t].f > 0 /\ held' = [held EXCEPT ![t].f = @ - 1] /\ Go(t, "relf") /\ UNCHANGED <<am, af, reg>>
RelF(t) == pc[t] = "relf" /\ af' = af + 1 /\ Go(t, "idle") /\ UNCHANGED <<am, reg, held>>
CloseN(t) == pc[t] = "idle" /\ held[t].n > 0 /\ held' = [held EXCEPT ![t].n = @ - 1] /\ UNCHANGED <<am, af, pc, reg>>
Next == \E t \in T : \/ Open(t) \/ AcqM(t) \/ StoreM(t) \/ TestM(t) \/ Map(t, TRUE) \/ Map(t, FALSE)
                     \/ AcqF(t) \/ TestF(t) \/ CloseM(t) \/ RelM(t) \/ CloseF(t) \/ RelF(t) \/ CloseN(t)
Spec == Init /\ [][Next]_vars
Sym == Permutations(T)
RECURSIVE Sum(_, _)
Sum(S, g) == IF S = {} THEN 0 ELSE LET t == CHOOSE t \in S : TRUE IN g[t] + Sum(S \ {t}, g)
HeldM == Sum(T, [t \in T |-> held[t].m])
HeldF == Sum(T, [t \in T |-> held[t].f])
MapLimit == HeldM <= M
FdLimit == HeldF <= F
Returned == (\A t \in T : pc[t] = "idle") => am = M - HeldM /\ af = F - HeldF
=============================================================================

---------------------------- MODULE BackgroundMC ----------------------------
(***************************************************************************)
(* The POSIX environment's background thread: a queue under a mutex, a     *)
(* condition variable, a thread started on first use.  Clients schedule    *)
(* items; running items schedule items too.  Wrong variants:               *)
(*   Recheck = FALSE   the background thread does not look again after     *)
(*                     waiting (spurious wakeups)                          *)
(*   Wake = "later"    signals only when the queue is not empty,           *)
(*        = "never"    does not signal                                     *)
(*   RunLocked = TRUE  runs items with the mutex held                      *)
(*   StartLocked = FALSE  decides about starting the thread without it     *)
(*   Pop = "last"      takes the newest item                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Clients, PerClient, Spurious, Recheck, Wake, RunLocked, StartLocked, Pop
VARIABLES mu,      \* holder of the mutex, 0: free
          q,       \* queue of items
          started, \* the flag
          bg,      \* background threads: id -> [pc, item]
          cl,      \* client -> [pc, n, item]
          waiting, \* background threads waiting on the condition
          ran,     \* items in the order of their start
          ended,   \* items finished
          before,  \* item -> items whose scheduling had returned when its began
          back,    \* items whose scheduling has returned
          spur
vars == <<mu, q, started, bg, cl, waiting, ran, ended, before, back, spur>>
\* items <<c, n>>: the n-th of client c; <<c, -n>>: the one scheduled while <<c, n>> runs
Items == Clients \X ((1..PerClient) \cup {-1})
B == 101..103
Init == /\ mu = 0 /\ q = <<>> /\ started = FALSE /\ bg = [b \in B |-> [pc |-> "none", item |-> <<0, 0>>]]
        /\ cl = [c \in Clients |-> [pc |-> "idle", n |-> 0, saw |-> FALSE]]
        /\ waiting = {} /\ ran = <<>> /\ ended = {} /\ before = [i \in Items |-> {}] /\ back = {} /\ spur = Spurious
Busy == \E b \in B : bg[b].pc = "none"
\* a new background thread, or none
StartBg == IF started \/ ~Busy THEN bg ELSE
           [bg EXCEPT ![CHOOSE b \in B : bg[b].pc = "none" /\ \A x \in B : bg[x].pc = "none" => b <= x].pc = "lock"]
\* clients
CBegin(c) ==
  /\ cl[c].pc = "idle" /\ cl[c].n < PerClient
  /\ cl' = [cl EXCEPT ![c] = [pc |-> IF StartLocked THEN "lock" ELSE "look", n |-> @.n + 1, saw |-> FALSE]]
  /\ before' = [before EXCEPT ![<<c, cl[c].n + 1>>] = back]
  /\ UNCHANGED <<mu, q, started, bg, waiting, ran, ended, back, spur>>
CLook(c) ==     \* the flag is read without the mutex
  /\ cl[c].pc = "look" /\ cl' = [cl EXCEPT ![c].pc = "start", ![c].saw = started]
  /\ UNCHANGED <<mu, q, started, bg, waiting, ran, ended, before, back, spur>>
CStart(c) ==
  /\ cl[c].pc = "start" /\ cl' = [cl EXCEPT ![c].pc = "lock"]
  /\ (IF cl[c].saw THEN UNCHANGED <<bg, started>>
      ELSE started' = TRUE /\ bg' = [bg EXCEPT ![CHOOSE b \in B : bg[b].pc = "none" /\ \A x \in B : bg[x].pc = "none" => b <= x].pc = "lock"])
  /\ UNCHANGED <<mu, q, waiting, ran, ended, before, back, spur>>
CLock(c) ==
  /\ cl[c].pc = "lock" /\ mu = 0 /\ mu' = c
  /\ bg' = (IF StartLocked THEN StartBg ELSE bg) /\ started' = TRUE
  /\ cl' = [cl EXCEPT ![c].pc = "wake"]
  /\ UNCHANGED <<q, waiting, ran, ended, before, back, spur>>
Signals == CASE Wake = "empty" -> q = <<>> [] Wake = "later" -> q # <<>> [] Wake = "never" -> FALSE
\* wake one waiter: it goes on to lock the mutex again
Signal(f) == IF waiting = {} THEN UNCHANGED waiting /\ bg' = f
             ELSE \E b \in waiting : waiting' = waiting \ {b} /\ bg' = [f EXCEPT ![b].pc = "relock"]
CWake(c) ==
  /\ cl[c].pc = "wake"
  /\ (IF Signals THEN Signal(bg) ELSE UNCHANGED <<waiting, bg>>)
  /\ cl' = [cl EXCEPT ![c].pc = "push"]
  /\ UNCHANGED <<mu, q, started, ran, ended, before, back, spur>>
CPush(c) ==
  /\ cl[c].pc = "push" /\ q' = Append(q, <<c, cl[c].n>>) /\ mu' = 0
  /\ cl' = [cl EXCEPT ![c].pc = "idle"] /\ back' = back \cup {<<c, cl[c].n>>}
  /\ UNCHANGED <<started, bg, waiting, ran, ended, before, spur>>
\* background threads
BLock(b) ==
  /\ bg[b].pc \in {"lock", "relock"} /\ mu = 0 /\ mu' = b
  /\ bg' = [bg EXCEPT ![b].pc = IF @ = "relock" /\ ~Recheck THEN "take" ELSE "look"]
  /\ UNCHANGED <<q, started, cl, waiting, ran, ended, before, back, spur>>
BLook(b) ==
  /\ bg[b].pc = "look"
  /\ (IF q = <<>> THEN mu' = 0 /\ waiting' = waiting \cup {b} /\ bg' = [bg EXCEPT ![b].pc = "waiting"]
      ELSE UNCHANGED <<mu, waiting>> /\ bg' = [bg EXCEPT ![b].pc = "take"])
  /\ UNCHANGED <<q, started, cl, ran, ended, before, back, spur>>
BSpur(b) ==
  /\ b \in waiting /\ spur > 0 /\ spur' = spur - 1 /\ waiting' = waiting \ {b}
  /\ bg' = [bg EXCEPT ![b].pc = "relock"] /\ UNCHANGED <<mu, q, started, cl, ran, ended, before, back>>
BTake(b) ==
  /\ bg[b].pc = "take"
  /\ q # <<>>                   \* taking from an empty queue: stuck (see Sane)
  /\ LET i == IF Pop = "last" THEN q[Len(q)] ELSE q[1] IN
       /\ q' = (IF Pop = "last" THEN SubSeq(q, 1, Len(q) - 1) ELSE Tail(q))
       /\ bg' = [bg EXCEPT ![b] = [pc |-> "run", item |-> i]]
  /\ mu' = (IF RunLocked THEN mu ELSE 0)
  /\ UNCHANGED <<started, cl, waiting, ran, ended, before, back, spur>>
BRun(b) ==      \* the item starts; the first of each client schedules another one
  /\ bg[b].pc = "run"
  /\ ran' = Append(ran, bg[b].item)
  /\ LET i == bg[b].item IN
       IF i[2] = 1 THEN bg' = [bg EXCEPT ![b].pc = "nlock"] /\ before' = [before EXCEPT ![<<i[1], -1>>] = back]
       ELSE bg' = [bg EXCEPT ![b].pc = "end"] /\ UNCHANGED before
  /\ UNCHANGED <<mu, q, started, cl, waiting, ended, back, spur>>
BNest(b) ==     \* the whole nested call (its lock taken and released)
  /\ bg[b].pc = "nlock" /\ mu = 0
  /\ (IF Signals THEN Signal([bg EXCEPT ![b].pc = "end"]) ELSE bg' = [bg EXCEPT ![b].pc = "end"] /\ UNCHANGED waiting)
  /\ q' = Append(q, <<bg[b].item[1], -1>>) /\ back' = back \cup {<<bg[b].item[1], -1>>}
  /\ UNCHANGED <<mu, started, cl, ran, ended, before, spur>>
BEnd(b) ==
  /\ bg[b].pc = "end" /\ ended' = ended \cup {bg[b].item} /\ mu' = (IF mu = b THEN 0 ELSE mu)
  /\ bg' = [bg EXCEPT ![b] = [pc |-> "lock", item |-> <<0, 0>>]]
  /\ UNCHANGED <<q, started, cl, waiting, ran, before, back, spur>>
Client(c) == CBegin(c) \/ CLook(c) \/ CStart(c) \/ CLock(c) \/ CWake(c) \/ CPush(c)
Back(b) == BLock(b) \/ BLook(b) \/ BTake(b) \/ BRun(b) \/ BNest(b) \/ BEnd(b)
Next == (\E c \in Clients : Client(c)) \/ (\E b \in B : Back(b) \/ BSpur(b))
Spec == Init /\ [][Next]_vars /\ (\A c \in Clients : SF_vars(CLock(c)) /\ WF_vars(Client(c)))
             /\ (\A b \in B : SF_vars(BLock(b)) /\ SF_vars(BNest(b)) /\ WF_vars(Back(b)))
Pos(i) == CHOOSE j \in 1..Len(ran) : ran[j] = i
HasRun(i) == \E j \in 1..Len(ran) : ran[j] = i
Once == \A j, k \in 1..Len(ran) : ran[j] = ran[k] => j = k
InOrder == \A i \in Items : HasRun(i) => \A p \in before[i] : HasRun(p) /\ Pos(p) < Pos(i)
Sane == \A b \in B : ~(bg[b].pc = "take" /\ q = <<>>)
NoneStuck == (~ENABLED Next) => \A i \in Items : HasRun(i)
Eventually == \A c \in Clients, n \in 1..PerClient : (<<c, n>> \in back) ~> HasRun(<<c, n>>)
=============================================================================

------------------------------ MODULE WrapperMC ------------------------------
(* Forwarding frame by frame, for every stack of up to MaxDepth layers.      *)
EXTENDS Wrapper, FiniteSets, TLC
CONSTANTS MaxDepth, Ops, Args, Results,
          Wrong   \* "none", or a way to forward wrongly
VARIABLES own, call, frames, served, res
vars == <<own, call, frames, served, res>>
Init == /\ own \in UNION {[1..d -> SUBSET Ops] : d \in 1..MaxDepth}
        /\ own[Len(own)] = Ops           \* the base serves everything
        /\ call = <<>> /\ frames = <<>> /\ served = <<>> /\ res = <<>>
Call(o, a) ==
  /\ call = <<>> /\ call' = <<o, a>> /\ frames' = <<[lvl |-> 1, o |-> o, a |-> a, n |-> 0]>>
  /\ UNCHANGED <<own, served, res>>
Top == frames[Len(frames)]
Below == SubSeq(frames, 1, Len(frames) - 1)
Serve(r) ==
  /\ frames # <<>> /\ res = <<>> /\ Top.o \in own[Top.lvl]
  /\ served' = Append(served, [lvl |-> Top.lvl, o |-> Top.o, a |-> Top.a, r |-> r])
  /\ res' = <<r>> /\ frames' = Below /\ UNCHANGED <<own, call>>
Times == IF Wrong = "twice" THEN 2 ELSE 1
Forward ==
  /\ frames # <<>> /\ res = <<>> /\ Top.o \notin own[Top.lvl] /\ Top.n < Times
  /\ frames' = Append([frames EXCEPT ![Len(frames)].n = @ + 1],
                      [lvl |-> IF Wrong = "skip" /\ Top.lvl + 1 < Len(own) THEN Top.lvl + 2 ELSE Top.lvl + 1,
                       o |-> IF Wrong = "op" THEN CHOOSE x \in Ops : TRUE ELSE Top.o,
                       a |-> IF Wrong = "arg" THEN CHOOSE x \in Args : TRUE ELSE Top.a, n |-> 0])
  /\ UNCHANGED <<own, call, served, res>>
Back ==
  /\ frames # <<>> /\ res # <<>> /\ UNCHANGED <<own, call, served>>
  /\ IF Top.n < Times THEN frames' = frames /\ res' = <<>>
     ELSE frames' = Below /\ res' = (IF Wrong = "result" THEN <<CHOOSE x \in Results : TRUE>> ELSE res)
Next == (\E o \in Ops, a \in Args : Call(o, a)) \/ (\E r \in Results : Serve(r)) \/ Forward \/ Back
Spec == Init /\ [][Next]_vars
Forwarded == call # <<>> /\ frames = <<>> =>
  /\ Len(served) = 1
  /\ LET s == served[1] IN s.lvl = Server(own, call[1]) /\ s.o = call[1] /\ s.a = call[2] /\ res = <<s.r>>
=============================================================================

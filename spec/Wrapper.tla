------------------------------- MODULE Wrapper -------------------------------
(***************************************************************************)
(* A stack of environments: layer 1 is what the caller holds, the last is  *)
(* the base.  own[i] is the set of operations layer i serves itself; every *)
(* other operation of a layer is to be forwarded unchanged to the next.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences
Servers(own, op) == {i \in 1..Len(own) : op \in own[i]}
\* the layer that must receive the operation: the first one that serves it (0: none)
Server(own, op) ==
  IF Servers(own, op) = {} THEN 0
  ELSE CHOOSE i \in Servers(own, op) : \A j \in Servers(own, op) : i <= j
=============================================================================

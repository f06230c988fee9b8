------------------------------ MODULE LoggerMC ------------------------------
(***************************************************************************)
(* The POSIX logger: a call formats its record into a small buffer, into a *)
(* larger one if it does not fit, adds a newline if needed, hands it to a  *)
(* shared stream in one call and flushes the stream.  The stream's own     *)
(* buffer holds Stream characters; what exceeds it goes to the file        *)
(* piecewise.  Lengths are scaled down; a character is <<call, index>>,    *)
(* the newline ends the record.  Dates are model-checked separately        *)
(* (DatesRight).  Variants (the first is the code's):                      *)
(*   Again = "minus1" | "over" | "never"  when the small buffer counts as  *)
(*        too small: offset >= size - 1, offset > size, never              *)
(*   Extra = 2 | 0    room beyond the record in the larger buffer          *)
(*   Pieces = 1 | 2   header and message handed to the stream separately   *)
(*   Flush = TRUE | FALSE                                                  *)
(*   Append = TRUE | FALSE   the file is opened for appending              *)
(***************************************************************************)
EXTENDS LogLine, FiniteSets, TLC
CONSTANTS Threads, Calls, HeadLen, Small, MaxLen, Stream, Again, Extra, Pieces, Flush, Append_
VARIABLES th,    \* thread -> [pc, n, len, nl, buf, size]
          sbuf, file, begun, done
vars == <<th, sbuf, file, begun, done>>
NL == 0
\* the text of a call: header, then the message (which may end in a newline)
Text(c, len, nl) == [i \in 1..(HeadLen + len) |-> IF nl /\ len > 0 /\ i = HeadLen + len THEN <<c, NL>> ELSE <<c, i>>]
Full(c, len, nl) == LET t == Text(c, len, nl) IN IF t[Len(t)] = <<c, NL>> THEN t ELSE Append(t, <<c, NL>>)
Old == <<<<<<0, 0>>, 1>>>>
Init == /\ th = [t \in Threads |-> [pc |-> "idle", n |-> 0, len |-> 0, nl |-> FALSE, buf |-> <<>>, off |-> 0, cap |-> 0]]
        /\ sbuf = <<>> /\ file = (IF Append_ THEN Old ELSE <<>>) /\ begun = {} /\ done = {}
Call(t) == <<t, th[t].n>>
Begin(t, len, nl) ==
  /\ th[t].pc = "idle" /\ th[t].n < Calls
  /\ th' = [th EXCEPT ![t] = [pc |-> "format", n |-> @.n + 1, len |-> len, nl |-> nl, buf |-> <<>>, off |-> 0, cap |-> Small]]
  /\ begun' = begun \cup {<<<<t, th[t].n + 1>>, len, nl>>} /\ UNCHANGED <<sbuf, file, done>>
\* what formatting leaves in a buffer of cap characters (one is the terminator)
Format(t) ==
  /\ th[t].pc = "format"
  /\ LET x == Text(Call(t), th[t].len, th[t].nl)  k == Min2(Len(x), th[t].cap - 1) IN
       th' = [th EXCEPT ![t].buf = SubSeq(x, 1, k), ![t].off = Len(x), ![t].pc = "fits"]
  /\ UNCHANGED <<sbuf, file, begun, done>>
TooSmall(t) == CASE Again = "minus1" -> th[t].off >= th[t].cap - 1 [] Again = "over" -> th[t].off > th[t].cap [] Again = "never" -> FALSE
Fits(t) ==
  /\ th[t].pc = "fits"
  /\ th' = (IF th[t].cap = Small /\ TooSmall(t) THEN [th EXCEPT ![t].cap = th[t].off + Extra, ![t].pc = "format"]
            ELSE [th EXCEPT ![t].pc = "write", ![t].buf = IF Len(@) > 0 /\ @[Len(@)] = <<Call(t), NL>> THEN @ ELSE Append(@, <<Call(t), NL>>)])
  /\ UNCHANGED <<sbuf, file, begun, done>>
\* hand q to the stream
Put(q) == LET all == sbuf \o q
              out == (Len(all) \div Stream) * Stream
          IN IF Len(all) <= Stream THEN sbuf' = all /\ UNCHANGED file
             ELSE file' = file \o SubSeq(all, 1, out) /\ sbuf' = SubSeq(all, out + 1, Len(all))
Write(t) ==
  /\ th[t].pc = "write"
  /\ IF Pieces = 1 THEN Put(th[t].buf) /\ th' = [th EXCEPT ![t].pc = "flush"]
     ELSE Put(SubSeq(th[t].buf, 1, HeadLen)) /\ th' = [th EXCEPT ![t].pc = "write2"]
  /\ UNCHANGED <<begun, done>>
Write2(t) == /\ th[t].pc = "write2" /\ Put(SubSeq(th[t].buf, HeadLen + 1, Len(th[t].buf))) /\ th' = [th EXCEPT ![t].pc = "flush"] /\ UNCHANGED <<begun, done>>
Flushing(t) ==
  /\ th[t].pc = "flush" /\ (IF Flush THEN file' = file \o sbuf /\ sbuf' = <<>> ELSE UNCHANGED <<file, sbuf>>)
  /\ th' = [th EXCEPT ![t].pc = "idle"] /\ done' = done \cup {Call(t)} /\ UNCHANGED begun
Next == \E t \in Threads : (\E n \in 0..MaxLen, b \in BOOLEAN : Begin(t, n, b)) \/ Format(t) \/ Fits(t) \/ Write(t) \/ Write2(t) \/ Flushing(t)
Spec == Init /\ [][Next]_vars
All == file \o sbuf
\* whole records: cut the contents after the old ones into maximal runs of one call
Recs == {Full(b[1], b[2], b[3]) : b \in begun}
RECURSIVE Whole(_, _)
Whole(q, rs) == q = <<>> \/ \E r \in rs : Len(r) <= Len(q) /\ SubSeq(q, 1, Len(r)) = r /\ Whole(SubSeq(q, Len(r) + 1, Len(q)), rs \ {r})
NotMixed == Len(All) >= 1 /\ SubSeq(All, 1, 1) = Old /\ Whole(Tail(All), Recs)
InFile(c) == \E i \in 1..Len(file) : file[i] = <<c, NL>>
OnFile == \A c \in done : InFile(c)
\* the newline never lands outside the buffer
InBounds == \A t \in Threads : th[t].pc = "write" => Len(th[t].buf) <= th[t].cap
\* the civil date advances day by day
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
Mdays(y, m) == CASE m \in {4, 6, 9, 11} -> 30 [] m = 2 -> (IF Leap(y) THEN 29 ELSE 28) [] OTHER -> 31
Tomorrow(c) == IF c.d < Mdays(c.y, c.m) THEN [c EXCEPT !.d = @ + 1]
               ELSE IF c.m < 12 THEN [c EXCEPT !.d = 1, !.m = @ + 1] ELSE [y |-> c.y + 1, m |-> 1, d |-> 1]
ASSUME Civil(0) = [y |-> 1970, m |-> 1, d |-> 1]
ASSUME \A z \in 0..60000 : Civil(z + 1) = Tomorrow(Civil(z))
=============================================================================

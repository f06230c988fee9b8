------------------------------ MODULE LogLine ------------------------------
(***************************************************************************)
(* The record of one log call: "YYYY/MM/DD-hh:mm:ss.uuuuuu <thread> ", the *)
(* message, and a newline unless the message ends in one.  The date is     *)
(* computed here from days and seconds since 1970 in local time.           *)
(***************************************************************************)
EXTENDS Rle
RECURSIVE Digits(_, _)
Digits(x, n) == IF n = 0 THEN <<>> ELSE Append(Digits(x \div 10, n - 1), 48 + (x % 10))
\* the civil date of a day number (days since 1970-01-01, not negative)
Civil(z0) ==
  LET z == z0 + 719468
      era == z \div 146097
      doe == z - (era * 146097)
      yoe == (((doe - (doe \div 1460)) + (doe \div 36524)) - (doe \div 146096)) \div 365
      doy == doe - (((365 * yoe) + (yoe \div 4)) - (yoe \div 100))
      mp == ((5 * doy) + 2) \div 153
      d == (doy - (((153 * mp) + 2) \div 5)) + 1
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
      y == (yoe + (era * 400)) + (IF m <= 2 THEN 1 ELSE 0)
  IN [y |-> y, m |-> m, d |-> d]
Stamp(day, sec, usec) ==
  LET c == Civil(day) IN
  Digits(c.y, 4) \o <<47>> \o Digits(c.m, 2) \o <<47>> \o Digits(c.d, 2) \o <<45>>
  \o Digits(sec \div 3600, 2) \o <<58>> \o Digits((sec \div 60) % 60, 2) \o <<58>> \o Digits(sec % 60, 2)
  \o <<46>> \o Digits(usec, 6) \o <<32>>
RECURSIVE FromBytes(_, _, _)
FromBytes(b, i, acc) == IF i > Len(b) THEN acc ELSE FromBytes(b, i + 1, Cat(acc, <<<<b[i], 1>>>>))
\* thread: bytes; msg: run-length form
Record(day, sec, usec, thread, msg) ==
  LET head == FromBytes(Stamp(day, sec, usec) \o thread \o <<32>>, 1, <<>>)
      line == Cat(head, msg)
  IN IF line[Len(line)][1] = 10 THEN line ELSE Cat(line, <<<<10, 1>>>>)
=============================================================================

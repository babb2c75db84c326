------------------------------ MODULE ShapeTrace ------------------------------
(* Reads dumped shapes, one a line, and stops at the first that is wrong.      *)
EXTENDS ShapeCheck

VARIABLES l, bad
Shapes == ndJsonDeserialize(IOEnv.TRACE)

Init == l = 0 /\ bad = ""
Next ==
  /\ l < Len(Shapes)
  /\ bad = ""
  /\ l' = l + 1
  /\ bad' = Why(Shapes[l + 1])
Spec == Init /\ [][Next]_<<l, bad>>

NoBad == bad = "" \/ PrintT(<<"BAD", l, bad>>) = FALSE
Stopped == PrintT(<<"READ", TLCGet("stats").diameter - 1, Len(Shapes)>>)
Accepted == Stopped /\ TLCGet("stats").diameter - 1 = Len(Shapes)
===============================================================================

-------------------------------- MODULE SortMC --------------------------------
(* Every sequence of a few keys, every choice of pivots.                        *)
EXTENDS Sort

CONSTANTS Keys, MaxLen, Emit

VARIABLES input, a, todo
vars == <<input, a, todo>>

Init ==
  /\ \E n \in 0..MaxLen : \E k \in [1..n -> 1..Keys] :
       /\ input = k
       /\ a = [i \in 1..n |-> <<k[i], i>>]
       /\ todo = {<<1, n>>}

Next ==
  /\ todo # {}
  /\ LET r == CHOOSE x \in todo : \A y \in todo : x[1] <= y[1]
         n == r[2] - r[1] + 1
     IN  IF n <= 1 THEN /\ todo' = todo \ {r} /\ UNCHANGED <<a, input>>
         ELSE \E p \in 1..n : \E q \in {Part(SubSeq(a, r[1], r[2]), p)} :
                /\ a' = SubSeq(a, 1, r[1] - 1) \o q[1] \o SubSeq(a, r[2] + 1, Len(a))
                /\ todo' = (todo \ {r}) \cup {<<x[1] + r[1] - 1, x[2] + r[1] - 1>> : x \in q[2]}
                /\ UNCHANGED input
Spec == Init /\ [][Next]_vars

Permuted == {a[i][2] : i \in 1..Len(a)} = 1..Len(a) /\ \A i \in 1..Len(a) : a[i][1] = input[a[i][2]]
(* Parts left to sort do not meet, and are what is not in its place yet.        *)
Apart == \A x, y \in todo : x = y \/ x[2] < y[1] \/ y[2] < x[1]
Placed == \A i \in 1..(Len(a) - 1) :
            (~ \E r \in todo : r[1] <= i /\ i + 1 <= r[2]) => a[i][1] <= a[i + 1][1]
Bounded == \A r \in todo : \A i \in 1..Len(a), j \in r[1]..r[2] :
             (i < r[1] => a[i][1] <= a[j][1]) /\ (i > r[2] => a[j][1] <= a[i][1])
(* Each step leaves less to do. *)
Measure(t) == LET S == {r \in t : r[1] <= r[2]} IN Cardinality(UNION {r[1]..r[2] : r \in S})
Shrinks == [][Measure(todo') < Measure(todo) \/ Cardinality(todo') < Cardinality(todo)]_vars

RECURSIVE Text(_)
Text(s) == IF s = <<>> THEN "" ELSE " " \o ToString(Head(s)) \o Text(Tail(s))
Shown == (Emit /\ todo = {<<1, Len(a)>>} /\ a = [i \in 1..Len(a) |-> <<input[i], i>>]) => PrintT("KEYS" \o Text(input))
===============================================================================

-------------------------------- MODULE RangeMC --------------------------------
(* Every way a caller can write a range over a vector of n: bounds unbounded,  *)
(* included or excluded, at every position, past the end by a little and by    *)
(* all there is.  What the API makes of it (VecApi!Span: two positions) is     *)
(* what the bounds say, position by position.  Each is printed, for the        *)
(* harness to call everything that takes a range with it.                      *)
EXTENDS VecApi

CONSTANTS MaxLen, Most, Emit   \* Most: stands for the largest number there is

VARIABLES n, k1, x1, k2, x2, done
all == <<vec, alive, own, ses, out, n, k1, x1, k2, x2, done>>

Spots == 0..(n + 2) \cup {Most}

Init ==
  /\ n \in 0..MaxLen
  /\ k1 \in 0..2 /\ k2 \in 0..2
  /\ x1 \in (IF k1 = 0 THEN {0} ELSE Spots)
  /\ x2 \in (IF k2 = 0 THEN {0} ELSE Spots)
  /\ vec = (0 :> RRun(1, n)) /\ alive = {0} /\ own = {0} /\ ses = NoSession /\ out = [r |-> <<>>, p |-> "no"]
  /\ done = FALSE
  /\ Emit => PrintT("RANGE " \o ToString(n) \o " " \o ToString(k1) \o " " \o ToString(x1) \o " " \o ToString(k2) \o " " \o ToString(x2))

(* The bounds, read as they stand. *)
Admits(p) ==
  /\ CASE k1 = 0 -> TRUE [] k1 = 1 -> p >= x1 [] OTHER -> p > x1
  /\ CASE k2 = 0 -> p < n [] k2 = 1 -> p <= x2 [] OTHER -> p < x2
Chosen == {p \in 0..(n - 1) : Admits(p)}

Sp == Span(<<k1, x1, k2, x2>>, n)

(* The end the bounds name lies past that of the vector. *)
Overreaches == (k2 = 1 /\ x2 >= n) \/ (k2 = 2 /\ x2 > n)

Next ==
  /\ n' = n /\ k1' = k1 /\ x1' = x1 /\ k2' = k2 /\ x2' = x2
  /\ ~done /\ done' = TRUE
  /\ \/ ReverseRange(0, Sp)
     \/ Extract(0, Sp, 1)
     \/ Sort(0, Sp, 1, 0, RPatch(vec[0], Lesser(Sp[1], n), Greater(Lesser(Sp[1], n), Lesser(Sp[2], n)),
                                  RRev(RSlice(vec[0], Lesser(Sp[1], n), Lesser(Sp[2], n)))))

Spec == Init /\ [][Next]_all

Chooses ==
  /\ Chosen = {p \in 0..(n - 1) : Sp[1] <= p /\ p < Sp[2]}
  /\ Overreaches <=> Sp[2] > n

(* Taken out: the chosen ones, in order; the others are left, in order. *)
Picked(keep(_)) == SelectSeq([i \in 1..n |-> i], LAMBDA i : keep(i - 1))
Took ==
  1 \in alive =>
    /\ Expand(vec[1]) = Picked(LAMBDA p : p \in Chosen)
    /\ Expand(vec[0]) = Picked(LAMBDA p : p \notin Chosen)

(* Reversed or sorted: refused past the end, with nothing changed; else only the chosen ones move. *)
Moved ==
  1 \notin alive =>
    \A q \in {Expand(vec[0])} :
      /\ \A p \in 0..(n - 1) : p \notin Chosen => q[p + 1] = p + 1
      /\ {q[i] : i \in 1..n} = 1..n
      /\ out.p = "yes" => q = [i \in 1..n |-> i] /\ Overreaches
================================================================================

--------------------------------- MODULE Walks ---------------------------------
(* Long random histories in the operations of Tree, of which only the length is *)
(* followed, so that TLC makes many: vectors put together of many pieces, cut   *)
(* and joined, for trees whose nodes hold children of all sizes.  Tree says     *)
(* what shape they come to, VecApi what they hold.                              *)
EXTENDS Integers, Sequences, TLC

CONSTANTS Wide, MaxElems, Steps

VARIABLES n, path, left

Pick(lo, hi) == RandomElement(lo..hi)
Str(k) == " " \o ToString(k)
(* A piece: small ones mostly, some of many leaves.  (Of its argument so that *)
(* TLC does not take it for a constant and pick once and for all.)            *)
Piece(any) == Pick(1, RandomElement({Wide, 4 * Wide, 10 * Wide}))

Init == \E how \in {"from", "pf", "mid"}, k \in {0, 1, Wide, 3 * Wide, 10 * Wide - 1} :
          n = k /\ path = how \o Str(k) /\ left = Steps

Go(what, m) == path' = path \o ";" \o what /\ n' = m /\ left' = left - 1

(* What is done next; joining half of the time. *)
Next ==
  /\ left > 0
  /\ \E kind \in {RandomElement(1..20)}, k \in {Piece(n)}, i \in {Pick(0, n)}, j \in {Pick(0, Wide)} :
     \/ kind <= 6 /\ n + k <= MaxElems /\ Go("AB" \o Str(k), n + k)
     \/ kind \in 7..10 /\ n + k <= MaxElems /\ Go("BF" \o Str(k), n + k)
     \/ kind \in 11..12 /\ i > 0 /\ i < n /\ Go("T" \o Str(i), n)
     \/ kind = 13 /\ n > 0 /\ i < n /\ Go("D" \o Str(i), n - 1)
     \/ kind = 14 /\ n < MaxElems /\ Go("I" \o Str(i), n + 1)
     \/ kind = 15 /\ i + j <= n /\ Go("X" \o Str(i) \o Str(i + j), n - j)
     \/ kind = 16 /\ 4 * i > n /\ Go("L" \o Str(i), i)
     \/ kind = 17 /\ 4 * (n - i) > n /\ Go("R" \o Str(i), n - i)
     \/ kind = 18 /\ 0 < n /\ 2 * n <= MaxElems /\ Go("AA", 2 * n)
     \/ kind = 19 /\ n < MaxElems /\ Go(RandomElement({"PB", "PF"}), n + 1)
     \/ kind = 20 /\ n > 0 /\ Go(RandomElement({"QB", "QF"}), n - 1)
     \/ UNCHANGED <<n, path>> /\ left' = left - 1

Spec == Init /\ [][Next]_<<n, path, left>>

Sane == n \in 0..MaxElems
Shown == left = 0 => PrintT("PATH " \o path)
================================================================================

--------------------------------- MODULE IterMC ---------------------------------
(* The life of an iterator over a vector of n: every interleaving of taking     *)
(* from the front and the back, with nth at every distance, forking, asking for *)
(* the length and using up the rest, in every state it can be in.  Every        *)
(* transition is printed, with a way to its state, for the real iterators.      *)
(* kind: 0 iter, 1 iter_mut (writing to what next and next_back give), 2 into_iter *)
EXTENDS VecApi

CONSTANTS Lens, Emit

VARIABLES n, kind, last,   \* last: which end was used last (where the cursor is)
          given,           \* what was handed out, in order
          put,             \* positions written to
          path             \* the commands so far; not part of the state
all == <<vec, alive, own, ses, out, n, kind, last, given, put, path>>
(* Where an iterator is does not depend on what was written through it: one way *)
(* to each place is enough to try the code from there, all of them (Full) for   *)
(* what becomes of the writes.                                                  *)
View == <<n, kind, last, RLen(ses.pre), RLen(ses.mid), RLen(ses.post), ses.k>>
Full == <<View, put>>

Init ==
  /\ n \in Lens /\ kind \in 0..2
  /\ vec = (IF kind = 2 THEN 0 :> <<>> ELSE 0 :> RRun(1, n))
  /\ alive = (IF kind = 2 THEN {} ELSE {0}) /\ own = alive
  /\ ses = [NoSession EXCEPT !.k = "it", !.h = 0, !.kind = kind, !.mid = RRun(1, n), !.own = TRUE]
  /\ out = [r |-> <<>>, p |-> "no"]
  /\ last = 0 /\ given = <<>> /\ put = {} /\ path = ""

Mark == 100  \* what is written to position p: p + Mark
Say(c) ==
  /\ path' = path \o c \o ";"
  /\ Emit => PrintT("ITER " \o ToString(n) \o " " \o ToString(kind) \o "|" \o path \o c)
Same == n' = n /\ kind' = kind

Handed == given' = given \o out'.r

Step ==
  /\ ses.k = "it" /\ Same
  /\ \/ /\ LET w == kind = 1 /\ Left > 0
               p == RLen(ses.pre) + 1
           IN  TakeFront(0, IF w THEN <<p + Mark>> ELSE <<>>) /\ put' = put \cup (IF w THEN {p} ELSE {})
        /\ Handed /\ last' = 1 /\ Say("n")
     \/ /\ LET w == kind = 1 /\ Left > 0
               p == n - RLen(ses.post)
           IN  TakeBack(0, IF w THEN <<p + Mark>> ELSE <<>>) /\ put' = put \cup (IF w THEN {p} ELSE {})
        /\ Handed /\ last' = 2 /\ Say("b")
     \/ \E k \in 0..(Left + 1) :
          /\ \/ TakeFront(k, <<>>) /\ last' = 1 /\ Say("N " \o ToString(k))
             \/ TakeBack(k, <<>>) /\ last' = 2 /\ Say("B " \o ToString(k))
          /\ put' = put /\ Handed
     \/ /\ \/ IterFork /\ \E w \in 0..3 : Say("F " \o ToString(w))
           \/ IterLen /\ Say("L")
        /\ UNCHANGED <<last, given, put>>
     \/ /\ \/ IterCount /\ Say("c") /\ given' = given
           \/ IterLast /\ Say("l") /\ Handed
           \/ TakeRest(<<>>) /\ given' = given \o Expand(out'.r) /\ \E c \in {"r", "f", "g"} : Say(c)
        /\ last' = 3 /\ put' = put
Close == IterClose /\ Same /\ UNCHANGED <<last, given, put, path>>
Next == Step \/ Close

Spec == Init /\ [][Next]_all

-------------------------------------------------------------------------------
(* Nothing is handed out twice. *)
Once == \A i, j \in DOMAIN given : given[i] = given[j] => i = j
(* What is left is the middle of what there was, untouched. *)
Middle == ses.k = "it" => ses.mid = RRun(RLen(ses.pre) + 1, RLen(ses.mid))
Whole == ses.k = "it" => RLen(ses.pre) + Left + RLen(ses.post) = n
(* Without skipping, all is handed out by the time nothing is left. *)
NoneLost == (ses.k = "it" /\ Left = 0 /\ last \in {1, 2} /\ Len(given) = n) => {given[i] : i \in 1..n} = 1..n
(* In the end exactly the positions written to are changed. *)
Landed == (ses.k = "none" /\ kind = 1) =>
            Expand(vec[0]) = [p \in 1..n |-> IF p \in put THEN p + Mark ELSE p]
Kept == kind = 0 => vec[0] = RRun(1, n)
Types == TypeOK
(* Once met, the ends keep giving nothing. *)
Fused == [][(ses.k = "it" /\ Left = 0 /\ ses'.k = "it") => (ses'.mid = <<>> /\ given' = given)]_all
================================================================================

------------------------------- MODULE Histories -------------------------------
(* Every history of a few calls over vectors that share storage: a vector and a *)
(* clone of it, and then any calls on these and on what comes of them, at the   *)
(* positions that matter.  What the calls mean is VecApi's; checked here is     *)
(* that they leave every vector alone that is not theirs, and lose and invent   *)
(* no element.  Each whole history is printed, for the library to go through.   *)
EXTENDS VecApi

CONSTANTS Lens,    \* lengths to start with
          Depth,   \* calls after the first clone
          Handles, \* how many vectors at most
          Emit

VARIABLES path, d, n0, mine  \* mine: the vectors the last call was on
hvars == <<api, path, d, n0, mine>>

H == 0..(Handles - 1)
Fresh(k) == 1000 * (d + 1) + 50 * k
Str(k) == " " \o ToString(k)

Init ==
  /\ n0 \in Lens
  /\ vec = [h \in H |-> IF h < 2 THEN RRun(1, n0) ELSE <<>>]
  /\ alive = {0, 1} /\ own = {} /\ ses = NoSession
  /\ out = [r |-> <<>>, p |-> "no"]
  /\ d = 0 /\ mine = H
  /\ path = "from_iter 0 1" \o Str(n0) \o " // clone 0 1"

Did(hs, what) ==
  /\ mine' = hs /\ n0' = n0 /\ d' = d + 1
  /\ path' = path \o " // " \o what
(* The vector with nothing in it yet, if any. *)
Free == IF H \ alive = {} THEN {} ELSE {CHOOSE h \in H \ alive : \A g \in H \ alive : h <= g}
(* The first call: on either of the two, which are alike. *)
Turn == IF d = 0 THEN {0} ELSE alive
Spots(h) == {0, L(h) \div 2, L(h) - 1} \cap 0..(L(h) - 1)
Cuts(h) == {1, L(h) \div 2, L(h) - 1} \cap 1..(L(h) - 1)
Short(h) == L(h) <= 60

One(h) ==
  \/ PushBack(h, Fresh(0), 1) /\ Did({h}, "push_back" \o Str(h) \o Str(Fresh(0)))
  \/ PushFront(h, Fresh(0), 1) /\ Did({h}, "push_front" \o Str(h) \o Str(Fresh(0)))
  \/ PopBack(h) /\ Did({h}, "pop_back" \o Str(h))
  \/ PopFront(h) /\ Did({h}, "pop_front" \o Str(h))
  \/ \E i \in Spots(h) :
       \/ SetAt(h, i, Fresh(0), i % 3) /\ Did({h}, "set" \o Str(h) \o Str(i) \o Str(Fresh(0)) \o Str(i % 3))
       \/ RemoveAt0(h, i) /\ Did({h}, "remove" \o Str(h) \o Str(i))
       \/ Insert(h, i, Fresh(0)) /\ Did({h}, "insert" \o Str(h) \o Str(i) \o Str(Fresh(0)))
  \/ \E i \in Cuts(h) :
       \/ SliceFromStart(h, i) /\ Did({h}, "slice_from_start" \o Str(h) \o Str(i))
       \/ SliceToEnd(h, i) /\ Did({h}, "slice_to_end" \o Str(h) \o Str(i))
       \/ \E g \in Free : SplitOff(h, i, g) /\ Did({h, g}, "split_off" \o Str(h) \o Str(i) \o Str(g))
  \/ Short(h) /\ AppendClone(h, h) /\ Did({h}, "append_clone" \o Str(h) \o Str(h))
  \/ ReverseRange(h, <<0, L(h)>>) /\ Did({h}, "reverse" \o Str(h))
  \/ \E g \in Free : Clone(h, g) /\ Did({g}, "clone" \o Str(h) \o Str(g))
  \/ Drop(h) /\ Did({h}, "drop" \o Str(h))
Two(h, g) ==
  \/ AppendVec(h, g) /\ Did({h, g}, "append" \o Str(h) \o Str(g))
  \/ PrependVec(h, g) /\ Did({h, g}, "prepend" \o Str(h) \o Str(g))
  \/ Short(h) /\ AppendClone(h, g) /\ Did({h}, "append_clone" \o Str(h) \o Str(g))
  \/ Short(h) /\ PrependClone(h, g) /\ Did({h}, "prepend_clone" \o Str(h) \o Str(g))
  \/ CloneFrom(h, g) /\ Did({h}, "clone_from" \o Str(h) \o Str(g))
(* Writing through an iterator to the first and last, through the parts of a    *)
(* focus to both sides of the middle: sessions, taken as one call here.         *)
Wrote(h, i, x, j, y) ==
  LET s == RSet(vec[h], i, x) IN Becomes(h, IF i = j THEN s ELSE RSet(s, j, y), <<>>)
Written(h) ==
  LET m == L(h) \div 2
      x == Fresh(1)  y == Fresh(2)
  IN  /\ L(h) > 1
      /\ \/ Wrote(h, 0, x, L(h) - 1, y) /\ Did({h}, "iter" \o Str(h) \o " 1 | 3" \o Str(x) \o " ; 4" \o Str(y))
         \/ Wrote(h, m - 1, x, m, y)
            /\ Did({h}, "fm" \o Str(h) \o " | 4 0" \o Str(m) \o " 1 2 ; 3 1" \o Str(m - 1) \o Str(x) \o " ; 3 2 0" \o Str(y))

Next ==
  /\ d < Depth
  /\ \E h \in Turn : One(h) \/ Written(h) \/ \E g \in alive \ {h} : Two(h, g)
Spec == Init /\ [][Next]_hvars

-------------------------------------------------------------------------------
Types == TypeOK
(* What is not the call's does not change. *)
Apart == [][\A h \in H \ mine' : vec'[h] = vec[h] /\ (h \in alive <=> h \in alive')]_hvars
(* A vector holds nothing that was not its maker's, or made since: all it holds *)
(* is from the start or a fresh element, and what no call could double is there *)
(* once.                                                                        *)
Known == \A h \in alive : \A x \in RIds(vec[h]) : x \in 1..n0 \/ x \in 1000..(1000 * Depth + 999)
Shown == (Emit /\ d = Depth) => PrintT("HIST " \o path)
================================================================================

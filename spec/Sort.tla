--------------------------------- MODULE Sort ---------------------------------
(* The sort of src/sort.rs: a quicksort that keeps what equals the pivot in the *)
(* middle, on a focus it splits into parts.  One step sorts out one part around *)
(* a pivot, any pivot, and leaves the parts on either side to be sorted.        *)
(*                                                                           *)
(* An element is <<key, which>>: only the key is compared.                     *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Swap(a, i, j) == [a EXCEPT ![i] = a[j], ![j] = a[i]]
Less(x, y) == x[1] < y[1]
Same(x, y) == x[1] = y[1]
Count(a, P(_)) == Cardinality({i \in 1..Len(a) : P(a[i])})

(* The pivot is the least: what equals it, gathered behind it.                  *)
RECURSIVE Gather(_, _, _)
Gather(a, i, eq) ==   \* a[1] the pivot; i in the rest, from 1; eq gathered so far
  IF i = Len(a) THEN <<a, eq>>
  ELSE IF Same(a[i + 1], a[1])
       THEN Gather(Swap(Swap(a, 1, eq + 2), 1, i + 1), i + 1, eq + 1)
       ELSE Gather(a, i + 1, eq)

(* The least of the rest to the front, the pivot left where it is.              *)
RECURSIVE LeastFirst(_, _, _)
LeastFirst(a, i, skip) ==
  IF i = Len(a) THEN a
  ELSE IF i # skip /\ Less(a[i + 1], a[1]) THEN LeastFirst(Swap(a, 1, i + 1), i + 1, skip)
  ELSE LeastFirst(a, i + 1, skip)

(* The parts: less [1+1 .. 1+l], equal the e after, greater what follows.       *)
RECURSIVE PassLess(_, _, _, _)
PassLess(a, l, lp, pivot) ==
  IF lp = l \/ ~Less(a[2 + lp], pivot) THEN lp ELSE PassLess(a, l, lp + 1, pivot)
RECURSIVE PassGreater(_, _, _, _)
PassGreater(a, base, gp, pivot) ==
  IF base + gp > Len(a) \/ ~Less(pivot, a[base + gp]) THEN gp ELSE PassGreater(a, base, gp + 1, pivot)
RECURSIVE NextUnequal(_, _, _, _, _)
NextUnequal(a, l, e, ep, x) ==   \* the first of the equal part, from ep on, that x does not equal
  IF Assert(ep < e, "ran off the equal part")
  THEN IF Same(x, a[2 + l + ep]) THEN NextUnequal(a, l, e, ep + 1, x) ELSE ep
  ELSE 0
RECURSIVE Settle(_, _, _, _, _, _)
Settle(a, l, e, lp0, ep, gp0) ==
  LET base == 2 + l + e
      g == Len(a) - 1 - l - e
  IN  IF lp0 = l /\ gp0 = g THEN a
      ELSE LET pivot == a[2 + l + ep]
               lp == PassLess(a, l, lp0, pivot)
               gp == PassGreater(a, base, gp0, pivot)
               leq == lp # l /\ Same(a[2 + lp], pivot)
               geq == gp # g /\ Same(a[base + gp], pivot)
           IN  IF geq
               THEN LET q == NextUnequal(a, l, e, ep, a[base + gp])
                    IN  Settle(Swap(a, base + gp, 2 + l + q), l, e, lp, q, gp)
               ELSE IF leq
               THEN LET q == NextUnequal(a, l, e, ep, a[2 + lp])
                    IN  Settle(Swap(a, 2 + lp, 2 + l + q), l, e, lp, q, gp)
               ELSE IF lp # l /\ gp # g
               THEN Settle(Swap(a, 2 + lp, base + gp), l, e, lp + 1, ep, gp + 1)
               ELSE IF Assert(lp = l /\ gp = g, "nothing to swap with: the loop does not end")
               THEN a ELSE a

(* One part, at least two long: <<it, the parts left to sort as <<from, to>>>>   *)
Part(a0, pivot) ==
  LET a == IF pivot > 1 THEN Swap(a0, 1, pivot) ELSE a0
      less == Count(Tail(a), LAMBDA x : Less(x, a[1]))
      equal == Count(Tail(a), LAMBDA x : Same(x, a[1]))
  IN  IF less = 0
      THEN LET g == Gather(a, 1, 0) IN <<g[1], {<<2 + g[2], Len(a)>>}>>
      ELSE LET l == less - 1
               b == LeastFirst(Swap(a, 1, 2 + l), 1, l + 1)
               c == Settle(b, l, equal + 1, 0, 0, 0)
           IN  <<c, {<<2, 1 + l>>, <<3 + l + equal, Len(a)>>}>>
===============================================================================

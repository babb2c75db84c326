-------------------------------- MODULE Ropes --------------------------------
(* Sequences of element identities, written as maximal ascending runs: the   *)
(* rope << <<5, 3>>, <<9, 1>> >> is the sequence 5, 6, 7, 9.  Every sequence  *)
(* has exactly one rope, so equality of ropes is equality of contents, and a  *)
(* vector of a hundred thousand elements stays small enough for TLC.          *)
(* Positions are counted from 0, as callers of the library count them.        *)
(* RopesMC checks every operator here against plain sequences.                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

RLen(r) == FoldLeft(LAMBDA acc, x : acc + x[2], 0, r)

Joins(x, y) == y[1] = x[1] + x[2]

RCat(a, b) ==
  IF a = <<>> THEN b
  ELSE IF b = <<>> THEN a
  ELSE LET x == a[Len(a)]  y == b[1]
       IN  IF Joins(x, y)
           THEN SubSeq(a, 1, Len(a) - 1) \o << <<x[1], x[2] + y[2]>> >> \o SubSeq(b, 2, Len(b))
           ELSE a \o b

(* The run position i falls in, and the offset inside it; past the end, the   *)
(* number of runs plus one.                                                   *)
RECURSIVE LocateFrom(_, _, _)
LocateFrom(r, j, i) ==
  IF j > Len(r) THEN <<j, 0>>
  ELSE IF i < r[j][2] THEN <<j, i>>
  ELSE LocateFrom(r, j + 1, i - r[j][2])
Locate(r, i) == LocateFrom(r, 1, i)

RTake(r, n) ==
  IF n <= 0 THEN <<>>
  ELSE LET p == Locate(r, n)
       IN  IF p[1] > Len(r) THEN r
           ELSE IF p[2] = 0 THEN SubSeq(r, 1, p[1] - 1)
           ELSE Append(SubSeq(r, 1, p[1] - 1), <<r[p[1]][1], p[2]>>)

RDrop(r, n) ==
  IF n <= 0 THEN r
  ELSE LET p == Locate(r, n)
       IN  IF p[1] > Len(r) THEN <<>>
           ELSE << <<r[p[1]][1] + p[2], r[p[1]][2] - p[2]>> >> \o SubSeq(r, p[1] + 1, Len(r))

RAt(r, i) == LET p == Locate(r, i) IN r[p[1]][1] + p[2]

RRun(x, n) == IF n <= 0 THEN <<>> ELSE << <<x, n>> >>
ROne(x) == << <<x, 1>> >>
RConst(x, n) == [i \in 1..n |-> <<x, 1>>]

RSlice(r, s, e) == RTake(RDrop(r, s), e - s)
RSet(r, i, x) == RCat(RCat(RTake(r, i), ROne(x)), RDrop(r, i + 1))
RInsert(r, i, x) == RCat(RCat(RTake(r, i), ROne(x)), RDrop(r, i))
RRemove(r, i) == RCat(RTake(r, i), RDrop(r, i + 1))
(* The sequence r with positions s..e-1 replaced by m.                        *)
RPatch(r, s, e, m) == RCat(RCat(RTake(r, s), m), RDrop(r, e))

(* Plain sequences (counted from 1) and back.                                 *)
Expand(r) == FlattenSeq([j \in 1..Len(r) |-> [i \in 1..r[j][2] |-> r[j][1] + i - 1]])

ToRope(s) ==
  LET st == SetToSortSeq({i \in 1..Len(s) : i = 1 \/ s[i] # s[i-1] + 1}, <)
  IN  [j \in 1..Len(st) |->
         <<s[st[j]], (IF j < Len(st) THEN st[j+1] ELSE Len(s) + 1) - st[j]>>]

RRev(r) == ToRope(Reverse(Expand(r)))

(* s in the order of lt.  TLC lists a set in order, which leaves its own SortSeq,  *)
(* an insertion sort, nothing to do; of any other order this is still a sort. *)
InOrderOf(s, lt(_, _)) ==
  LET q == SetToSeq({<<s[i], i>> : i \in 1..Len(s)})
      t == [i \in 1..Len(q) |-> q[i][1]]
  IN  IF \A r \in {t} : \A i \in 1..(Len(r) - 1) : ~lt(r[i + 1], r[i]) THEN t ELSE SortSeq(t, lt)
SeqSame(s, t) == InOrderOf(s, <) = InOrderOf(t, <)
SameBag(a, b) == a = b \/ SeqSame(Expand(a), Expand(b))

(* How often an identity occurs.                                              *)
ROcc(r, x) == Cardinality({j \in 1..Len(r) : r[j][1] <= x /\ x < r[j][1] + r[j][2]})
RIds(r) == UNION {r[j][1]..(r[j][1] + r[j][2] - 1) : j \in 1..Len(r)}

IsRope(r) ==
  /\ \A j \in 1..Len(r) : r[j][2] >= 1
  /\ \A j \in 1..(Len(r) - 1) : ~Joins(r[j], r[j+1])

(* -1, 0 or 1: the order of the two sequences, position by position.          *)
RCmp(a, b) ==
  IF a = b THEN 0
  ELSE CHOOSE c \in
    {LET m == IF Len(p[1]) < Len(p[2]) THEN Len(p[1]) ELSE Len(p[2])
         i == SelectInSeq([j \in 1..m |-> p[1][j] # p[2][j]], LAMBDA x : x)
     IN  IF i = 0 THEN (IF Len(p[1]) < Len(p[2]) THEN -1 ELSE 1)
         ELSE IF p[1][i] < p[2][i] THEN -1 ELSE 1
     : p \in {<<Expand(a), Expand(b)>>}} : TRUE
==============================================================================

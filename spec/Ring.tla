--------------------------------- MODULE Ring ---------------------------------
(* The fixed-size circular buffer every node keeps its children or elements in *)
(* (src/circular.rs), slot by slot, as the library manages the memory: a slot  *)
(* holds an element or is uninitialised (Hole).  The operations are written    *)
(* as the code does them; RingMC says what they must come to.                  *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT W   \* RRB_WIDTH

Hole == 0
Slots == 0..(W - 1)

Empty == [front |-> 0, len |-> 0, data |-> [s \in Slots |-> Hole]]

At(r, i) == (r.front + i) % W
Back(r) == (r.front + r.len) % W
Full(r) == r.len = W

(* What the buffer stands for. *)
Seq_(r) == [i \in 1..r.len |-> r.data[At(r, i - 1)]]

(* The slots that hold an element. *)
Live(r) == {At(r, i) : i \in 0..(r.len - 1)}

PushBack(r, x) == [r EXCEPT !.data[Back(r)] = x, !.len = @ + 1]
PushFront(r, x) ==
  LET f == (r.front + W - 1) % W
  IN  [front |-> f, len |-> r.len + 1, data |-> [r.data EXCEPT ![f] = x]]
Push(r, s, x) == IF s = "F" THEN PushFront(r, x) ELSE PushBack(r, x)

(* An element moved out leaves its slot uninitialised. *)
PopBack(r) ==
  LET b == (r.front + r.len - 1) % W
  IN  <<r.data[b], [r EXCEPT !.len = @ - 1, !.data[b] = Hole]>>
PopFront(r) ==
  <<r.data[r.front], [front |-> (r.front + 1) % W, len |-> r.len - 1, data |-> [r.data EXCEPT ![r.front] = Hole]]>>
Pop(r, s) == IF s = "F" THEN PopFront(r) ELSE PopBack(r)

Other(s) == IF s = "F" THEN "B" ELSE "F"
Min(a, b) == IF a < b THEN a ELSE b

RECURSIVE Move(_, _, _, _)
Move(a, b, s, k) ==
  IF k = 0 THEN <<a, b>>
  ELSE LET p == Pop(a, s) IN Move(p[2], Push(b, Other(s), p[1]), s, k - 1)

(* decant_into: elements leave a at side s and enter b at the other; at most k. *)
Decant(a, b, s, k) ==
  IF b.len = 0 /\ k >= W THEN <<b, a>>
  ELSE Move(a, b, s, Min(k, Min(a.len, W - b.len)))

(* The slots Clone reads and Drop drops: in three cases, as the code has it. *)
Touched(r) ==
  IF Full(r) THEN Slots
  ELSE IF Back(r) >= r.front THEN r.front..(Back(r) - 1)
  ELSE (0..(Back(r) - 1)) \cup (r.front..(W - 1))

(* A copy of every element: x stands in the copy as -x. *)
Clone(r) == [r EXCEPT !.data = [s \in Slots |-> IF s \in Touched(r) THEN -r.data[s] ELSE Hole]]

(* pair_mut: the slots of two distinct positions; the array is cut at the higher slot. *)
Pair(r, i, j) ==
  LET a == At(r, i)
      b == At(r, j)
  IN  IF a > b THEN LET cut == a IN [first |-> cut, second |-> b, ok |-> b < cut]
      ELSE LET cut == b IN [first |-> a, second |-> cut, ok |-> a < cut]

(* The view a mutable focus holds of a leaf: a window of positions over the raw slots. *)
View(r) == [data |-> r.data, front |-> r.front, lo |-> 0, hi |-> r.len]
ViewSlot(v, i) == (v.front + v.lo + i) % W
ViewLen(v) == v.hi - v.lo
ViewSplit(v, k) == <<[v EXCEPT !.hi = v.lo + k], [v EXCEPT !.lo = v.lo + k]>>
ViewSlots(v) == {ViewSlot(v, i) : i \in 0..(ViewLen(v) - 1)}
===============================================================================

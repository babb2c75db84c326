------------------------------ MODULE ShapeCheck ------------------------------
(* The structural invariants of the tree (Invariants 1 to 7 of the crate's    *)
(* documentation, and what its navigation relies on), and a checker that      *)
(* judges tree shapes dumped from the running library by them.                *)
(*                                                                           *)
(* A shape is <<length, left spine, root, right spine>>, spines leaf first.   *)
(* A leaf is its number of elements; an internal node is                      *)
(* <<level, recorded sizes of the children, children>>.                       *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils

CONSTANT W   \* the width of a node

(* Leaves are dumped at level 0 as bare numbers wrapped by Norm.               *)
Level(n) == n[1]
Slots(n) == IF Level(n) = 0 THEN n[2] ELSE Len(n[3])
SumOf(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
RECURSIVE Size(_)
Size(n) == IF Level(n) = 0 THEN n[2] ELSE SumOf([i \in 1..Len(n[3]) |-> Size(n[3][i])])

(* Every node below a spine or the root is non-empty, no wider than W, of a    *)
(* level one lower than its parent, and its parent knows its size.             *)
RECURSIVE Sound(_)
Sound(n) ==
  /\ Slots(n) <= W
  /\ Level(n) > 0 =>
       /\ Len(n[2]) = Len(n[3])
       /\ \A i \in 1..Len(n[3]) :
            /\ Level(n[3][i]) = Level(n) - 1
            /\ Slots(n[3][i]) >= 1
            /\ n[2][i] = Size(n[3][i])
            /\ Sound(n[3][i])

Abs(x) == IF x < 0 THEN -x ELSE x

Why(s) ==
  LET len == s[1]  lsp == s[2]  root == s[3]  rsp == s[4]
      h == Len(lsp)
  IN
  IF Len(lsp) # Len(rsp) THEN "1: the spines are of different lengths"
  ELSE IF Level(root) # h \/ (\E i \in 1..h : Level(lsp[i]) # i - 1 \/ Level(rsp[i]) # i - 1)
  THEN "levels: a node is at the wrong height"
  ELSE IF \E i \in 2..h : Slots(lsp[i]) > W - 1 \/ Slots(rsp[i]) > W - 1
  THEN "2: a spine node has no free slot"
  ELSE IF h > 0 /\ (Slots(lsp[1]) = 0 \/ Slots(rsp[1]) = 0) THEN "3: a spine leaf is empty"
  ELSE IF h > 0 /\ Slots(root) > W - 2 THEN "4: the root has fewer than two free slots"
  ELSE IF h > 0 /\ Slots(root) = 0 /\ Abs(Slots(lsp[h]) - Slots(rsp[h])) > 1
  THEN "5: the tops of the spines are out of balance"
  ELSE IF h > 0 /\ Slots(root) = 0
          /\ Slots(lsp[h]) + Slots(rsp[h]) < (IF h = 1 THEN W ELSE W - 2)
  THEN "5: the tree is taller than it has to be"
  ELSE IF ~Sound(root) \/ (\E i \in 1..h : ~Sound(lsp[i]) \/ ~Sound(rsp[i]))
  THEN "6: a node is wider than allowed, empty, or its recorded sizes are wrong"
  ELSE IF len # Size(root) + SumOf([i \in 1..h |-> Size(lsp[i]) + Size(rsp[i])])
  THEN "7: the recorded length is not the number of elements"
  ELSE ""

===============================================================================

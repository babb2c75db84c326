-------------------------------- MODULE TreeMC --------------------------------
(* Every shape of tree the operations of Tree can reach from a few starts, and *)
(* at every one of them every operation at every position: the contents come   *)
(* out as the sequence operation says, and the result is a sound tree.  Each   *)
(* new shape is printed with the operations that led to it, for the harness to *)
(* take the library the same way.                                             *)
EXTENDS Tree, FiniteSets, IOUtils

CONSTANTS Starts,    \* the lengths of the trees to begin with
          MaxElems,  \* no tree longer than this
          MaxDepth,  \* operations after the start
          Emit,      \* print the paths
          Kinds,     \* what may be done: see Next
          Some       \* take only some positions, at random (for simulation)

S == INSTANCE ShapeCheck WITH W <- Wide

VARIABLES t, path, depth, err,
          grown   \* nothing was ever cut off this tree
vars == <<t, path, depth, err, grown>>
View == <<t, grown>>

\* lengths to begin with, where they are all taken
Upto150 == 0..150
Upto400 == 0..400
All == 1..10
Growing == {8, 10}

Ids(k, n) == [i \in 1..n |-> k + i - 1]
Built(how, n) ==
  CASE how = "from" -> PushAll(New, "B", Ids(1, n))
    [] how = "pf" -> PushAll(New, "F", Reverse(Ids(1, n)))
    [] how = "mid" -> PushAll(PushAll(New, "B", Ids(n \div 2 + 1, n - n \div 2)), "F", Reverse(Ids(1, n \div 2)))
    [] OTHER -> Constant(1, n)

Judge(x, want) ==
  LET w == S!Why(Shape(x))
  IN  IF w # "" THEN w ELSE IF Contents(x) # want THEN "contents" ELSE ""

(* The height a tree of n elements that only ever grew may have: a level more, *)
(* and it holds twice as much.                                                *)
RECURSIVE Levels(_, _)
Levels(n, k) == IF 2 * n < Wide * 2^k THEN k ELSE Levels(n, k + 1)

Init ==
  \E n \in Starts, how \in {"from", "pf", "mid", "const"} :
    LET x == Built(how, n)
        want == IF how = "const" THEN [i \in 1..n |-> 1] ELSE Ids(1, n)
    IN  t = Blanked(x) /\ path = how \o " " \o ToString(n) /\ depth = 0 /\ err = Judge(x, want) /\ grown = TRUE

Higher(m) == IF Height(m) > Height(t) THEN Height(m) - Height(t) ELSE 0
(* rise: the levels the call may add to those of what it is made of.           *)
Grows(x, want, what, grew, rise) ==
  /\ x.len <= MaxElems
  /\ t' = Blanked(x)
  /\ path' = path \o ";" \o what
  /\ depth' = depth + 1
  /\ grown' = (grown /\ grew)
  /\ err' = LET w == Judge(x, want)
            IN  IF w # "" THEN w
                ELSE IF Height(x) > Height(t) + rise THEN "taller than what it was made of"
                ELSE IF grown' /\ Height(x) > Levels(x.len, 0) THEN "taller than its length calls for"
                ELSE ""
Step(x, want, what) == Grows(x, want, what, FALSE, 0)
Joins(x, want, what) == Grows(x, want, what, FALSE, 1)
Adds(x, want, what) == Grows(x, want, what, TRUE, 1)

Positions(lo, hi) ==
  IF lo > hi THEN {}
  ELSE IF Some THEN {RandomElement(lo..hi), RandomElement(lo..hi)}
  ELSE lo..hi
\* of an argument, or TLC takes it for a constant and picks once and for all
Sizes(any) == IF Some THEN {RandomElement(1..(4 * Wide)), RandomElement(1..MaxElems)}
         ELSE {2, Wide, Wide + 1, 2 * Wide, 3 * Wide + 1}

Next ==
  /\ err = "" /\ depth < MaxDepth
  /\ \E kind \in (IF Some THEN {RandomElement(Kinds)} ELSE Kinds) : \E v \in {Numbered(t, 1)} : \E q \in {Ids(1, t.len)} : LET n == t.len IN
     \/ kind = 1 /\ Adds(Push(v, "B", 0), q \o <<0>>, "PB")
     \/ kind = 2 /\ Adds(Push(v, "F", 0), <<0>> \o q, "PF")
     \/ kind = 3 /\ n > 0 /\ \E r \in {Pop(v, "B")} :
          Step(r[2], IF r[1] = <<n>> THEN Front(q) ELSE <<>>, "QB")
     \/ kind = 4 /\ n > 0 /\ \E r \in {Pop(v, "F")} :
          Step(r[2], IF r[1] = <<1>> THEN Tail(q) ELSE <<>>, "QF")
     \/ kind = 5 /\ \E i \in Positions(1, n - 1) : \E p \in {SplitOff(v, i)} :
          \/ Step(p[1], SubSeq(q, 1, i), "L " \o ToString(i))
          \/ Step(p[2], SubSeq(q, i + 1, n), "R " \o ToString(i))
          \/ Joins(Concat(p[2], p[1]), SubSeq(q, i + 1, n) \o SubSeq(q, 1, i), "T " \o ToString(i))
     \/ kind = 6 /\ \E i \in Positions(0, n) :
          Joins(InsertAtPos(v, i, 0), SubSeq(q, 1, i) \o <<0>> \o SubSeq(q, i + 1, n), "I " \o ToString(i))
     \/ kind = 7 /\ \E i \in Positions(0, n - 1) :
          Joins(RemoveAtPos(v, i), SubSeq(q, 1, i) \o SubSeq(q, i + 2, n), "D " \o ToString(i))
     \/ kind = 8 /\ Adds(Concat(v, v), q \o q, "AA")
     \/ kind = 9 /\ \E i \in Positions(0, n), k \in 0..Wide :
          /\ i + k <= n
          /\ \E p \in {Extract(v, i, i + k)} :
               Joins(p[1], SubSeq(q, 1, i) \o SubSeq(q, i + k + 1, n), "X " \o ToString(i) \o " " \o ToString(i + k))
     \/ kind = 10 /\ \E k \in Sizes(n) :
          \/ \E m \in {PushAll(New, "B", Ids(n + 1, k))} :
               Grows(Concat(v, m), q \o Ids(n + 1, k), "AB " \o ToString(k), TRUE, 1 + Higher(m))
          \/ \E m \in {PushAll(New, "F", Reverse(Ids(n + 1, k)))} :
               Grows(Concat(m, v), Ids(n + 1, k) \o q, "BF " \o ToString(k), TRUE, 1 + Higher(m))

Spec == Init /\ [][Next]_vars

Right == err = "" \/ PrintT("WRONG " \o err \o " after " \o path) = FALSE
Shown == Emit => PrintT("PATH " \o path)
(* In simulation: now and then. *)
ShownSome == (depth % 8 = 7) => PrintT("PATH " \o path)
===============================================================================

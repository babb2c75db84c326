------------------------------- MODULE FocusMC --------------------------------
(* Every state either focus can be brought into over a few trees, and in each   *)
(* of them every position asked for.  Each state is printed as a session: the   *)
(* tree's history, a bar, and what to do with the focus.                       *)
EXTENDS Focus, FiniteSets

CONSTANTS Trees,   \* which trees
          Mutable, \* which focus: FALSE read, TRUE mutable
          Depth,   \* how many times narrowed or split
          Emit

Ids(k, n) == [i \in 1..n |-> k + i - 1]
From(n) == PushAll(New, "B", Ids(1, n))
Mid(n) == PushAll(PushAll(New, "B", Ids(n \div 2 + 1, n - n \div 2)), "F", Reverse(Ids(1, n \div 2)))
Turn(t, i) == LET p == SplitOff(t, i) IN Concat(p[2], p[1])
(* <<history, tree>>; TreeMC and lib/paths.py read the histories the same way.  *)
Tree(i) ==
  CASE i = 1 -> <<"from 0", New>>
    [] i = 2 -> <<"from 3", From(3)>>
    [] i = 3 -> <<"from 9", From(9)>>
    [] i = 4 -> <<"mid 11;T 4", Turn(Mid(11), 4)>>
    [] i = 5 -> <<"from 13;R 3", SplitOff(From(13), 3)[2]>>
    [] i = 6 -> <<"mid 14;L 11", SplitOff(Mid(14), 11)[1]>>
    [] i = 7 -> <<"from 6;AA", Concat(From(6), From(6))>>
    [] i = 8 -> <<"from 23;T 9;R 6", SplitOff(Turn(From(23), 9), 6)[2]>>
    [] i = 9 -> <<"mid 31;T 13;L 27", SplitOff(Turn(Mid(31), 13), 27)[1]>>
    [] i = 10 -> <<"from 40;R 17", SplitOff(From(40), 17)[2]>>
    [] OTHER -> <<"from 58;T 20;T 31", Turn(Turn(From(58), 20), 31)>>

VARIABLES tree, f, win, stack, path, depth, err
vars == <<tree, f, win, stack, path, depth, err>>
\* the cursor and how the window was made, not the way to it
View == <<tree, f, win, stack, depth, err>>

T == Numbered(Tree(tree)[2], 1)
Show(s) == path \o ";" \o s
At(w, j) == IF w[1] + j < w[2] THEN w[1] + j + 1 ELSE 0

Init ==
  \E i \in Trees :
    /\ tree = i /\ path = Tree(i)[1] \o "|" /\ stack = <<>> /\ depth = 0
    /\ \E t \in {Numbered(Tree(i)[2], 1)} :
         /\ win = <<0, t.len>>
         /\ f = IF Mutable THEN MNew(t) ELSE Narrowed(t, 0, t.len)
         /\ err = IF Contents(t) # Ids(1, t.len) THEN "tree" ELSE ""

Keep == UNCHANGED <<tree>>

Get ==
  \E t \in {T} : \E j \in 0..(win[2] - win[1] + 1) :
    \E r \in {IF Mutable THEN MGet(f, j) ELSE FGet(t, f, j)} :
      /\ f' = r[2] /\ err' = IF r[1] = At(win, j) THEN "" ELSE "element"
      /\ path' = Show("g " \o ToString(j))
      /\ UNCHANGED <<win, stack, depth>> /\ Keep

(* The read focus: narrowed anew over the vector, narrowed, split.             *)
Windows ==
  /\ ~Mutable /\ depth < Depth
  /\ depth' = depth + 1 /\ UNCHANGED stack /\ Keep
  /\ \E t \in {T} : LET n == win[2] - win[1] IN
     \/ /\ depth = 0 /\ f = Narrowed(t, 0, t.len)
        /\ \E a \in 0..t.len, b \in 0..(t.len + 1) :
          /\ a <= b
          /\ \E g \in {Narrowed(t, a, b)} :
             /\ f' = g /\ win' = <<a, Least(b, t.len)>>
             /\ err' = IF FLen(g) = Least(b, t.len) - a THEN "" ELSE "length"
             /\ path' = Show("w " \o ToString(a) \o " " \o ToString(b))
     \/ \E a \in 0..n, b \in 0..n :
          /\ a <= b /\ (a = 0 \/ b = n \/ b = a + 1)
          /\ \E g \in {FNarrow(t, f, a, b)} :
             /\ f' = g /\ win' = <<win[1] + a, win[1] + b>>
             /\ err' = IF FLen(g) = b - a THEN "" ELSE "length"
             /\ path' = Show("n " \o ToString(a) \o " " \o ToString(b))
     \/ \E k \in 0..(n - 1) : \E p \in {FSplit(t, f, k)} :
          /\ err' = IF FLen(p[1]) = k /\ FLen(p[2]) = n - k THEN "" ELSE "length"
          /\ \/ f' = p[1] /\ win' = <<win[1], win[1] + k>> /\ path' = Show("l " \o ToString(k))
             \/ f' = p[2] /\ win' = <<win[1] + k, win[2]>> /\ path' = Show("r " \o ToString(k))

(* The mutable one: into one half of a split and back out of it.                *)
Splits ==
  /\ Mutable /\ Keep /\ UNCHANGED depth
  /\ LET n == win[2] - win[1] IN
     \/ /\ Len(stack) < Depth
        /\ \E k \in 0..n : \E p \in {MSplit(f, k)} :
          /\ err' = IF p[1].len # k \/ p[2].len # n - k THEN "length"
                    ELSE IF MReach(p[1]) # Ids(win[1] + 1, k) \/ MReach(p[2]) # Ids(win[1] + k + 1, n - k) THEN "reach"
                    ELSE ""
          /\ stack' = Append(stack, <<f, win>>)
          /\ \/ f' = p[1] /\ win' = <<win[1], win[1] + k>> /\ path' = Show("l " \o ToString(k))
             \/ f' = p[2] /\ win' = <<win[1] + k, win[2]>> /\ path' = Show("r " \o ToString(k))
     \/ /\ stack # <<>>
        /\ f' = Last(stack)[1] /\ win' = Last(stack)[2] /\ stack' = Front(stack)
        /\ path' = Show("j") /\ err' = ""

Next == err = "" /\ (Get \/ Windows \/ Splits)
Spec == Init /\ [][Next]_vars

Right == err = "" \/ PrintT("WRONG " \o err \o " after " \o path) = FALSE
Shown == Emit => PrintT("SESSION " \o path)
===============================================================================

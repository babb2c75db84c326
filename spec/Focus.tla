-------------------------------- MODULE Focus ---------------------------------
(* The two foci of src/focus.rs over the trees of Tree: how the read focus      *)
(* picks a node of the spine, keeps a path below it and moves it; how the       *)
(* mutable focus walks borrowed nodes, is split into two that share no          *)
(* position, and is usable again once both are gone.                           *)
(*                                                                           *)
(* The trees are numbered from 1: the element at position i is i + 1.          *)
EXTENDS Tree

In(i, r) == r[1] <= i /\ i < r[2]

-------------------------------------------------------------------------------
(* The read focus: [sp, fr, path, leaf, lr, rg].  sp is its node's place along  *)
(* the spines, 0 when it has none; fr the positions that node covers; path the  *)
(* nodes below, each with the positions it covers inside that node; lr those    *)
(* of the leaf; rg the window.                                                *)
AlongSpine(t) == t.ls \o <<t.root>> \o Reverse(t.rs)

(* Down from the last of the path to the leaf of a position within it.         *)
RECURSIVE TreePath(_, _)
TreePath(path, idx) ==   \* <<path, leaf, leaf range>>
  LET n == Last(path).n  at == Last(path).s
      w == ChildAt(n.sz, 1, idx)
      first == idx - w[2]
      ch == n.c[w[1]]
      s == at + first  e == at + first + NLen(ch)
  IN  IF ch.lv = 0 THEN <<path, ch, <<s, e>>>>
      ELSE TreePath(Append(path, [n |-> ch, s |-> s, e |-> e]), w[2])

OnNode(n) ==   \* PartialFocus::from_tree
  IF n.lv = 0 THEN <<<<>>, n, <<0, NLen(n)>>>>
  ELSE TreePath(<<[n |-> n, s |-> 0, e |-> NLen(n)]>>, 0)

RECURSIVE Backed(_, _)
Backed(path, idx) ==
  IF Assert(path # <<>>, "a focus ran off the top of its path")
  THEN IF In(idx, <<Last(path).s, Last(path).e>>) THEN path ELSE Backed(Front(path), idx)
  ELSE path
Moved(p, idx) ==   \* PartialFocus::move_focus
  IF In(idx, p[3]) THEN p
  ELSE LET path == Backed(p[1], idx) IN TreePath(path, idx - Last(path).s)

Narrowed(t, s, e) ==
  LET rg == <<Least(s, t.len), Least(e, t.len)>>
      a == AlongSpine(t)
      o == Offsets(0, [i \in 1..Len(a) |-> NLen(a[i])])
      hit == {i \in 1..Len(a) : rg[1] < o[i] + NLen(a[i]) /\ rg[2] > o[i]}
      last == CHOOSE i \in hit : \A j \in hit : j <= i
      p == IF hit = {} THEN OnNode(IF t.ls = <<>> THEN t.root ELSE t.ls[1]) ELSE OnNode(a[last])
  IN  [sp |-> IF hit = {} THEN 0 ELSE last,
       fr |-> IF hit = {} THEN <<0, 0>> ELSE <<o[last], o[last] + NLen(a[last])>>,
       path |-> p[1], leaf |-> p[2], lr |-> p[3], rg |-> rg]

(* To another node of the spine: on from the present one, either way.           *)
RECURSIVE Seek(_, _, _, _, _)
Seek(a, i, dir, edge, idx) ==   \* <<place, range>>
  IF Assert(i \in 1..Len(a), "no node of the spine has the position")
  THEN LET r == IF dir = 1 THEN <<edge, edge + NLen(a[i])>> ELSE <<edge - NLen(a[i]), edge>>
       IN  IF In(idx, r) THEN <<i, r>> ELSE Seek(a, i + dir, dir, r[IF dir = 1 THEN 2 ELSE 1], idx)
  ELSE <<1, <<0, 0>>>>
Refocus(t, f, idx) ==
  LET a == AlongSpine(t)
      here == IF f.sp = 0 THEN Len(t.ls) + 1 ELSE f.sp
      w == IF idx < f.fr[1] THEN Seek(a, here - 1, -1, f.fr[1], idx) ELSE Seek(a, here + 1, 1, f.fr[2], idx)
      p == Moved(OnNode(a[w[1]]), idx - w[2][1])
  IN  [f EXCEPT !.sp = w[1], !.fr = w[2], !.path = p[1], !.leaf = p[2], !.lr = p[3]]

FGet(t, f0, i) ==   \* <<element or 0, focus>>
  LET idx == i + f0.rg[1]
  IN  IF ~In(idx, f0.rg) THEN <<0, f0>>
      ELSE LET f == IF In(idx, f0.fr) THEN f0 ELSE Refocus(t, f0, idx)
               j == idx - f.fr[1]
           IN  IF f.path = <<>> THEN <<f.leaf.c[j + 1], f>>
               ELSE LET p == Moved(<<f.path, f.leaf, f.lr>>, j)
                    IN  <<p[2].c[j - p[3][1] + 1], [f EXCEPT !.path = p[1], !.leaf = p[2], !.lr = p[3]]>>
FLen(f) == f.rg[2] - f.rg[1]
FNarrow(t, f, s, e) == Narrowed(t, f.rg[1] + s, f.rg[1] + e)
FSplit(t, f, k) == <<Narrowed(t, f.rg[1], f.rg[1] + k), Narrowed(t, f.rg[1] + k, f.rg[2])>>

-------------------------------------------------------------------------------
(* The mutable focus: [nodes, len, root, path, leaf, lr].  Its nodes are        *)
(* borrowed: a node and the stretch lo..hi of its children (of its elements,    *)
(* for a leaf) that may be touched.  root: <<>> or <<which of nodes, s, e>>.    *)
Borrow(n) == [n |-> n, lo |-> 0, hi |-> NSlots(n)]
BSkipped(b) == IF b.n.lv = 0 THEN b.lo ELSE Sum(SubSeq(b.n.sz, 1, b.lo))
BLen(b) == IF b.n.lv = 0 THEN b.hi - b.lo ELSE Sum(SubSeq(b.n.sz, b.lo + 1, b.hi))
RECURSIVE BElems(_)
BElems(b) == IF b.n.lv = 0 THEN SubSeq(b.n.c, b.lo + 1, b.hi)
             ELSE FlattenSeq([i \in 1..(b.hi - b.lo) |-> Elems(b.n.c[b.lo + i])])

MOver(nodes) == [nodes |-> nodes, len |-> Sum([i \in 1..Len(nodes) |-> BLen(nodes[i])]),
                 root |-> <<>>, path |-> <<>>, leaf |-> <<>>, lr |-> <<0, 0>>]
MNew(t) ==   \* focus_mut: every node of the spines that has something
  LET a == SelectSeq(AlongSpine(t), LAMBDA n : NLen(n) > 0) IN MOver([i \in 1..Len(a) |-> Borrow(a[i])])

(* The child of a borrowed node that has a position: <<slot, child, its start>> *)
BChild(b, idx) ==
  LET skipped == BSkipped(b)
      w == ChildAt(b.n.sz, 1, skipped + idx)
  IN  IF Assert(w[1] <= b.hi /\ w[1] > b.lo, "a borrowed node was asked beyond its stretch")
      THEN <<w[1] - 1 - b.lo, b.n.c[w[1]], idx - w[2]>>
      ELSE <<0, b.n.c[1], 0>>

NodeOf(nodes, idx) ==   \* <<which, position in it>>
  LET o == Offsets(0, [i \in 1..Len(nodes) |-> BLen(nodes[i])])
      i == CHOOSE k \in 1..Len(nodes) : o[k] <= idx /\ idx < o[k] + BLen(nodes[k])
  IN  <<i, idx - o[i]>>

RECURSIVE MDown(_, _, _)
MDown(m, b, at) ==   \* b: [b, s, e], the borrowed node to go down from, with what it covers
  LET w == BChild(b.b, at - b.s)
      s == b.s + w[3]  e == s + NLen(w[2])
  IN  IF w[2].lv = 0 THEN [m EXCEPT !.leaf = <<Borrow(w[2])>>, !.lr = <<s, e>>]
      ELSE LET d == [b |-> Borrow(w[2]), s |-> s, e |-> e]
           IN  MDown([m EXCEPT !.path = Append(@, d)], d, at)
RECURSIVE Dropped(_, _)
Dropped(path, idx) ==
  IF path = <<>> \/ In(idx, <<Last(path).s, Last(path).e>>) THEN path ELSE Dropped(Front(path), idx)
MMove(m0, idx) ==
  IF In(idx, m0.lr) THEN m0
  ELSE LET m1 == IF m0.leaf # <<>> THEN [m0 EXCEPT !.leaf = <<>>, !.lr = <<0, 0>>] ELSE m0
           m2 == IF m1.root # <<>> /\ ~In(idx, <<m1.root[2], m1.root[3]>>)
                 THEN [m1 EXCEPT !.root = <<>>, !.leaf = <<>>, !.lr = <<0, 0>>, !.path = <<>>] ELSE m1
       IN  IF m2.root = <<>> /\ idx >= m2.len THEN m2
           ELSE LET w == NodeOf(m2.nodes, idx)
                    m3 == IF m2.root # <<>> THEN m2
                          ELSE [m2 EXCEPT !.root = <<w[1], idx - w[2], idx - w[2] + BLen(m2.nodes[w[1]])>>]
                    m == [m3 EXCEPT !.path = Dropped(@, idx)]
                    top == m.nodes[m.root[1]]
                IN  IF m.path # <<>> THEN MDown(m, Last(m.path), idx)
                    ELSE IF top.n.lv = 0 THEN [m EXCEPT !.lr = <<m.root[2], m.root[3]>>]
                    ELSE MDown(m, [b |-> top, s |-> m.root[2], e |-> m.root[3]], idx)
MGet(m0, idx) ==   \* <<element or 0, focus>>
  LET m == MMove(m0, idx)
  IN  IF ~In(idx, m.lr) THEN <<0, m>>
      ELSE LET b == IF m.leaf # <<>> THEN m.leaf[1] ELSE m.nodes[m.root[1]]
               at == b.lo + idx - m.lr[1] + 1
           IN  IF Assert(b.n.lv = 0 /\ at > b.lo /\ at <= b.hi, "a leaf was read beyond its stretch")
               THEN <<b.n.c[at], m>> ELSE <<0, m>>

Some1(b) == IF BLen(b) = 0 THEN <<>> ELSE <<b>>
SomeC(b) == IF b.hi = b.lo THEN <<>> ELSE <<b>>
RECURSIVE MCut(_, _, _)
MCut(left, right, sub) ==   \* right: first node first; cuts it at sub
  IF sub = 0 THEN <<left, right>>
  ELSE LET b == Head(right)
       IN  IF b.n.lv = 0
           THEN LET x == [b EXCEPT !.hi = b.lo + sub]  y == [b EXCEPT !.lo = b.lo + sub]
                IN  <<left \o SomeC(x), SomeC(y) \o Tail(right)>>
           ELSE LET w == BChild(b, sub)
                    x == [b EXCEPT !.hi = b.lo + w[1]]
                    y == [b EXCEPT !.lo = b.lo + w[1] + 1]
                IN  MCut(left \o Some1(x), <<Borrow(w[2])>> \o Some1(y) \o Tail(right), sub - w[3])
MSplit(m, k) ==   \* the halves; the focus itself stays as it is until they are gone
  LET none == MOver(<<>>)
  IN  IF k = 0 THEN <<none, m>>
      ELSE IF k = m.len THEN <<m, none>>
      ELSE LET w == NodeOf(m.nodes, k)
               p == MCut(SubSeq(m.nodes, 1, w[1] - 1), SubSeq(m.nodes, w[1], Len(m.nodes)), w[2])
           IN  <<MOver(p[1]), MOver(p[2])>>
MReach(m) == FlattenSeq([i \in 1..Len(m.nodes) |-> BElems(m.nodes[i])])
===============================================================================

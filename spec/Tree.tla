--------------------------------- MODULE Tree ---------------------------------
(* The algorithms of the tree, step by step as src/vector.rs and              *)
(* src/node_impls/basic.rs take them: how a spine is completed and refilled,   *)
(* how the root grows and shrinks, how two trees are joined and one is cut.    *)
(*                                                                           *)
(* A node is [lv, c, sz]: its level, its children (a leaf's are its elements), *)
(* and the recorded sizes of its children (empty for a leaf).  A tree is       *)
(* [ls, root, rs, len], spines leaf first.  What the code would panic on is    *)
(* asserted.                                                                  *)
EXTENDS Integers, Sequences, SequencesExt, TLC

CONSTANT Wide   \* RRB_WIDTH

Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Least(x, y) == IF x < y THEN x ELSE y
Negate(side) == IF side = "F" THEN "B" ELSE "F"

Leaf(s) == [lv |-> 0, c |-> s, sz |-> <<>>]
Empty(lv) == [lv |-> lv, c |-> <<>>, sz |-> <<>>]
NSlots(n) == Len(n.c)
NFree(n) == Wide - Len(n.c)
NLen(n) == IF n.lv = 0 THEN Len(n.c) ELSE Sum(n.sz)
IsEmptyN(n) == NSlots(n) = 0

(* A child (an element, at level 0) onto one side of a node, and off it.       *)
PushChild(n, side, x) ==
  IF Assert(NSlots(n) < Wide, "push onto a full node")
  THEN LET sz == IF n.lv = 0 THEN <<>> ELSE <<NLen(x)>>
       IN  IF side = "F" THEN [n EXCEPT !.c = <<x>> \o @, !.sz = sz \o @]
           ELSE [n EXCEPT !.c = @ \o <<x>>, !.sz = @ \o sz]
  ELSE n
PopChild(n, side) ==   \* <<child, rest>>
  IF Assert(NSlots(n) > 0, "pop from an empty node")
  THEN IF side = "F"
       THEN <<Head(n.c), [n EXCEPT !.c = Tail(@), !.sz = IF n.lv = 0 THEN @ ELSE Tail(@)]>>
       ELSE <<Last(n.c), [n EXCEPT !.c = Front(@), !.sz = IF n.lv = 0 THEN @ ELSE Front(@)]>>
  ELSE <<n, n>>

(* share_children_with: up to k children off one side of src, onto the facing  *)
(* side of dst; all of them, by an exchange, when dst is empty.               *)
Share(src, dst, side, k) ==   \* <<src, dst>>
  IF Assert(src.lv = dst.lv, "sharing between levels")
  THEN IF NSlots(dst) = 0 /\ k >= Wide THEN <<dst, src>>
       ELSE LET m == Least(k, Least(NSlots(src), NFree(dst)))
                n == NSlots(src)
                Z(s, a, b) == IF src.lv = 0 THEN <<>> ELSE SubSeq(s, a, b)
            IN  IF side = "F"
                THEN <<[src EXCEPT !.c = SubSeq(@, m + 1, n), !.sz = Z(@, m + 1, n)],
                       [dst EXCEPT !.c = @ \o SubSeq(src.c, 1, m), !.sz = @ \o Z(src.sz, 1, m)]>>
                ELSE <<[src EXCEPT !.c = SubSeq(@, 1, n - m), !.sz = Z(@, 1, n - m)],
                       [dst EXCEPT !.c = SubSeq(src.c, n - m + 1, n) \o @,
                                   !.sz = Z(src.sz, n - m + 1, n) \o @]>>
  ELSE <<src, dst>>

(* pack_children: the grandchildren moved towards the front until every child  *)
(* but the last is full; the sizes recorded afresh.                           *)
RECURSIVE PackFrom(_, _, _)
PackFrom(c, w, r) ==   \* the children, the one written to, the one read from
  IF r > Len(c) THEN c
  ELSE IF r = w THEN PackFrom(c, w, r + 1)
  ELSE LET p == Share(c[r], c[w], "F", Wide)
           d == [c EXCEPT ![r] = p[1], ![w] = p[2]]
       IN  PackFrom(d, IF NFree(p[2]) = 0 THEN w + 1 ELSE w, IF IsEmptyN(p[1]) THEN r + 1 ELSE r)
RECURSIVE Trimmed(_)
Trimmed(c) == IF IsEmptyN(Last(c)) THEN Trimmed(Front(c)) ELSE c
Pack(n) ==
  IF IsEmptyN(n) THEN n
  ELSE LET c == Trimmed(PackFrom(n.c, 1, 2))
       IN  [n EXCEPT !.c = c, !.sz = [i \in 1..Len(c) |-> NLen(c[i])]]

(* The child a position falls into, and the position inside it.               *)
RECURSIVE ChildAt(_, _, _)
ChildAt(sz, i, pos) ==
  IF Assert(i <= Len(sz), "position past the end of a node")
  THEN IF pos < sz[i] THEN <<i, pos>> ELSE ChildAt(sz, i + 1, pos - sz[i])
  ELSE <<1, 0>>

RECURSIVE SplitNode(_, _)
SplitNode(n, pos) ==   \* <<before, from pos on>>
  IF n.lv = 0
  THEN <<[n EXCEPT !.c = SubSeq(@, 1, pos)], [n EXCEPT !.c = SubSeq(@, pos + 1, Len(@))]>>
  ELSE LET at == ChildAt(n.sz, 1, pos)
           k == at[1] - 1
           before == [n EXCEPT !.c = SubSeq(@, 1, k), !.sz = SubSeq(@, 1, k)]
           after == [n EXCEPT !.c = SubSeq(@, k + 1, Len(@)), !.sz = SubSeq(@, k + 1, Len(@))]
       IN  IF at[2] = 0 THEN <<before, after>>
           ELSE LET x == PopChild(after, "F")
                    p == SplitNode(x[1], at[2])
                IN  <<PushChild(before, "B", p[1]), PushChild(x[2], "F", p[2])>>

-------------------------------------------------------------------------------
New == [ls |-> <<>>, root |-> Leaf(<<>>), rs |-> <<>>, len |-> 0]

Spine(t, side) == IF side = "F" THEN t.ls ELSE t.rs
WithSpine(t, side, s) == IF side = "F" THEN [t EXCEPT !.ls = s] ELSE [t EXCEPT !.rs = s]
Height(t) == Len(t.ls)
(* Level 0 of a side is its leaf; one above the top of the spine is the root.  *)
NodeAt(t, side, lev) == IF lev < Height(t) THEN Spine(t, side)[lev + 1] ELSE t.root
SpineNode(s, root, lev) == IF lev < Len(s) THEN s[lev + 1] ELSE root
PutNode(t, side, lev, n) ==
  IF lev < Len(Spine(t, side)) THEN WithSpine(t, side, [Spine(t, side) EXCEPT ![lev + 1] = n])
  ELSE [t EXCEPT !.root = n]

RECURSIVE FixupSpineTops(_)
FixupSpineTops(t) ==
  IF ~(IsEmptyN(t.root) /\ t.root.lv > 0) THEN t
  ELSE LET h == Len(t.ls)
           l == t.ls[h]  r == t.rs[h]
           a == NSlots(l)  b == NSlots(r)
           diff == IF a > b THEN a - b ELSE b - a
           least == IF t.root.lv = 1 THEN Wide ELSE Wide - 2
       IN  IF a + b < least
           THEN LET p == Share(l, r, "B", Wide)
                IN  FixupSpineTops([t EXCEPT !.ls = Front(@), !.rs = Front(@), !.root = p[2]])
           ELSE IF diff >= 2
           THEN IF a > b
                THEN LET p == Share(l, r, "B", diff \div 2)
                     IN  [t EXCEPT !.ls[h] = p[1], !.rs[h] = p[2]]
                ELSE LET p == Share(r, l, "F", diff \div 2)
                     IN  [t EXCEPT !.rs[h] = p[1], !.ls[h] = p[2]]
           ELSE t

RECURSIVE Complete(_, _, _)
Complete(t, side, lev) ==
  IF lev >= Len(Spine(t, side)) THEN t
  ELSE LET n == Spine(t, side)[lev + 1]
       IN  IF NFree(n) # 0 THEN t
           ELSE LET t1 == PutNode(t, side, lev, Empty(n.lv))
                    t2 == PutNode(t1, side, lev + 1, PushChild(NodeAt(t1, side, lev + 1), side, n))
                IN  Complete(t2, side, lev + 1)
CompleteLeaf(t0, side) ==
  LET t == Complete(t0, side, 0)
  IN  IF NSlots(t.root) >= Wide - 1
      THEN LET p == Share(t.root, Empty(t.root.lv), Negate(side), Wide \div 2)
               t1 == [t EXCEPT !.root = Empty(t.root.lv + 1)]
               t2 == WithSpine(t1, side, Append(Spine(t1, side), p[1]))
           IN  WithSpine(t2, Negate(side), Append(Spine(t2, Negate(side)), p[2]))
      ELSE IF IsEmptyN(t.root) THEN FixupSpineTops(t)
      ELSE t

Push(t0, side, x) ==
  LET t == IF NFree(NodeAt(t0, side, 0)) = 0 THEN CompleteLeaf(t0, side) ELSE t0
      t1 == [PutNode(t, side, 0, PushChild(NodeAt(t, side, 0), side, x)) EXCEPT !.len = @ + 1]
  IN  IF Len(t1.ls) = 1 THEN FixupSpineTops(t1) ELSE t1

RECURSIVE Refill(_, _, _)
Refill(t, side, lev) ==
  IF lev < 0 THEN t
  ELSE LET p == PopChild(NodeAt(t, side, lev + 1), side)
           t1 == PutNode(t, side, lev + 1, p[2])
       IN  Refill(PutNode(t1, side, lev, p[1]), side, lev - 1)
EmptyLeaf(t, side) ==
  LET s == Spine(t, side)
      full == {i \in 1..(Len(s) - 1) : NSlots(s[i + 1]) # 0}
      lastEmpty == IF full = {} THEN Len(s) - 1
                   ELSE (CHOOSE i \in full : \A j \in full : i <= j) - 1
  IN  FixupSpineTops(Refill(t, side, lastEmpty))

Pop(t, side) ==   \* <<element or <<>>, tree>>
  IF Len(t.ls) = 0
  THEN IF IsEmptyN(t.root) THEN <<<<>>, t>>
       ELSE LET p == PopChild(t.root, side)
            IN  <<<<p[1]>>, [t EXCEPT !.root = p[2], !.len = @ - 1]>>
  ELSE LET p == PopChild(NodeAt(t, side, 0), side)
           t1 == [PutNode(t, side, 0, p[2]) EXCEPT !.len = @ - 1]
       IN  <<<<p[1]>>, IF IsEmptyN(p[2]) THEN EmptyLeaf(t1, side)
                       ELSE IF Len(t1.ls) = 1 THEN FixupSpineTops(t1) ELSE t1>>

RECURSIVE PushAll(_, _, _)
PushAll(t, side, s) ==   \* the elements of s, one after the other
  IF s = <<>> THEN t ELSE PushAll(Push(t, side, Head(s)), side, Tail(s))

(* The root becomes the top of a spine, half of it each, under an empty root.  *)
RECURSIVE RaiseLeft(_, _)
RaiseLeft(t, h) ==   \* as self: the rest stays on the left
  IF Len(t.ls) >= h THEN t
  ELSE LET p == Share(t.root, Empty(t.root.lv), "B", NSlots(t.root) \div 2)
       IN  RaiseLeft([t EXCEPT !.root = Empty(t.root.lv + 1), !.ls = Append(@, p[1]), !.rs = Append(@, p[2])], h)
RECURSIVE RaiseRight(_, _)
RaiseRight(t, h) ==  \* as other: the rest stays on the right
  IF Len(t.ls) >= h THEN t
  ELSE LET p == Share(t.root, Empty(t.root.lv), "F", NSlots(t.root) \div 2)
       IN  RaiseRight([t EXCEPT !.root = Empty(t.root.lv + 1), !.ls = Append(@, p[2]), !.rs = Append(@, p[1])], h)

(* The seam, from the leaves up.  sp is the left tree's right spine and so on. *)
UpPush(s, root, side, x) ==   \* onto the lowest of the spine, or the root: <<spine, root>>
  IF s = <<>> THEN <<s, PushChild(root, side, x)>>
  ELSE <<[s EXCEPT ![1] = PushChild(@, side, x)], root>>
RECURSIVE FillLast(_, _)
FillLast(last, right) ==   \* move grandchildren of right into last
  IF NFree(last) = 0 \/ IsEmptyN(right) THEN <<last, right>>
  ELSE LET p == PopChild(right, "F")
           q == Share(p[1], last, "F", NSlots(p[1]))
       IN  FillLast(q[2], IF IsEmptyN(q[1]) THEN p[2] ELSE PushChild(p[2], "F", q[1]))
(* low: the height of the shorter tree.  Above it there may be nothing to merge *)
(* on one side; a single node then stays, as node of the outer spine of the    *)
(* shorter tree, which has nothing there.  <<roots, the outer spines>>.        *)
RECURSIVE SeamUp(_, _, _, _, _, _, _, _)
SeamUp(sp, lroot, sq, rroot, lev, low, ls, rs) ==
  IF sp = <<>> THEN <<lroot, rroot, ls, rs>>
  ELSE LET g == IF IsEmptyN(sp[1]) \/ IsEmptyN(sq[1]) THEN <<sq[1], sp[1]>>
                ELSE LET p == PopChild(Pack(sp[1]), "B")
                         f == FillLast(p[1], sq[1])
                         r2 == Pack(f[2])
                     IN  Share(r2, PushChild(p[2], "B", f[1]), "F", NSlots(r2))
           left == g[2]  right == g[1]
           one == IF IsEmptyN(right) THEN left ELSE right
           u == IF IsEmptyN(left) THEN <<Tail(sp), lroot>> ELSE UpPush(Tail(sp), lroot, "B", left)
           v == IF IsEmptyN(right) THEN <<Tail(sq), rroot>> ELSE UpPush(Tail(sq), rroot, "F", right)
           keep(s) == [s EXCEPT ![lev + 1] = one]
       IN  IF lev > low.h /\ (IsEmptyN(left) \/ IsEmptyN(right)) /\ NFree(one) # 0
           THEN SeamUp(Tail(sp), lroot, Tail(sq), rroot, lev + 1, low,
                       IF low.right THEN ls ELSE keep(ls), IF low.right THEN keep(rs) ELSE rs)
           ELSE SeamUp(u[1], u[2], v[1], v[2], lev + 1, low, ls, rs)

Concat(a0, b0) ==
  IF a0.len = 0 THEN b0
  ELSE IF b0.len = 0 THEN a0
  ELSE IF a0.len = 1 THEN Push(b0, "F", Pop(a0, "B")[1][1])
  ELSE IF b0.len = 1 THEN Push(a0, "B", Pop(b0, "B")[1][1])
  ELSE LET a == RaiseLeft(a0, Len(b0.ls))
           b == RaiseRight(b0, Len(a0.ls))
           \* the two facing leaves go up
           u == IF a.rs = <<>> THEN <<a.rs, a.root>>
                ELSE IF IsEmptyN(a.rs[1]) THEN <<Tail(a.rs), a.root>>
                ELSE UpPush(Tail(a.rs), a.root, "B", a.rs[1])
           v == IF b.ls = <<>> THEN <<b.ls, b.root>>
                ELSE IF IsEmptyN(b.ls[1]) THEN <<Tail(b.ls), b.root>>
                ELSE UpPush(Tail(b.ls), b.root, "F", b.ls[1])
           low == [h |-> Least(Height(a0), Height(b0)), right |-> Height(b0) < Height(a0)]
           roots == SeamUp(u[1], u[2], v[1], v[2], 1, low, a.ls, b.rs)
           p == Share(roots[2], roots[1], "F", Wide)
           q == IF NFree(p[2]) < 2 THEN Share(p[2], p[1], "B", 1) ELSE <<p[2], p[1]>>
           t == [ls |-> roots[3], root |-> q[1], rs |-> roots[4], len |-> a.len + b.len]
       IN  FixupSpineTops(
             IF IsEmptyN(q[2]) THEN t
             ELSE [t EXCEPT !.ls = Append(@, q[1]), !.rs = Append(@, q[2]),
                            !.root = Empty(q[1].lv + 1)])

-------------------------------------------------------------------------------
(* Where a position lies: <<"F" or "B" or "R", level, position in that node>>  *)
RECURSIVE FindFrom(_, _, _, _, _)
FindFrom(t, i, lev, fwd, bwd) ==
  IF lev >= Len(t.ls) THEN <<"R", 0, i - fwd>>
  ELSE IF i < fwd + NLen(t.ls[lev + 1]) THEN <<"F", lev, i - fwd>>
  ELSE LET f == fwd + NLen(t.ls[lev + 1])
           b == bwd - NLen(t.rs[lev + 1])
       IN  IF i >= b THEN <<"B", lev, i - b>> ELSE FindFrom(t, i, lev + 1, f, b)
Find(t, i) == FindFrom(t, i, 0, 0, t.len)

(* A cut leaves spines with empty nodes below, and roots missing.              *)
RECURSIVE DropEmpty(_)
DropEmpty(s) == IF s # <<>> /\ IsEmptyN(Head(s)) THEN DropEmpty(Tail(s)) ELSE s
RECURSIVE LowerRoot(_)
LowerRoot(t) ==
  IF IsEmptyN(t.root) /\ (t.ls = <<>> \/ t.rs = <<>>) /\ ~(t.ls = <<>> /\ t.rs = <<>>)
  THEN IF t.ls = <<>> THEN LowerRoot([t EXCEPT !.root = Last(t.rs), !.rs = Front(@)])
       ELSE LowerRoot([t EXCEPT !.root = Last(t.ls), !.ls = Front(@)])
  ELSE t
RECURSIVE FillSpine(_, _)
FillSpine(t, side) ==
  LET s == Spine(t, side)
      low == IF s = <<>> THEN t.root ELSE s[1]
  IN  IF low.lv = 0 THEN t
      ELSE LET p == PopChild(low, side)
               t1 == IF s = <<>> THEN [t EXCEPT !.root = p[2]]
                     ELSE WithSpine(t, side, [s EXCEPT ![1] = p[2]])
           IN  FillSpine(WithSpine(t1, side, <<p[1]>> \o Spine(t1, side)), side)
Mend(t0, side) ==
  LET t == FillSpine(LowerRoot(WithSpine(t0, side, DropEmpty(Spine(t0, side)))), side)
      s == Spine(t, side)
  IN  IF s # <<>> /\ IsEmptyN(s[1])
      THEN FixupSpineTops(EmptyLeaf(FixupSpineTops(t), side))
      ELSE FixupSpineTops(t)

SplitOff(t, at) ==   \* <<before, from at on>>
  IF at = 0 THEN <<New, t>>
  ELSE IF at >= t.len THEN <<t, New>>
  ELSE LET w == Find(t, at)
           k == w[2] + 1
           none == Leaf(<<>>)
           parts ==
             CASE w[1] = "F" ->
                    LET p == SplitNode(t.ls[k], w[3])
                    IN  <<[ls |-> SubSeq(t.ls, 1, k - 1), root |-> p[1], rs |-> <<>>, len |-> at],
                          [ls |-> <<p[2]>> \o SubSeq(t.ls, k + 1, Len(t.ls)), root |-> t.root, rs |-> t.rs,
                           len |-> t.len - at]>>
               [] w[1] = "R" ->
                    LET p == SplitNode(t.root, w[3])
                    IN  <<[ls |-> t.ls, root |-> p[1], rs |-> <<>>, len |-> at],
                          [ls |-> <<>>, root |-> p[2], rs |-> t.rs, len |-> t.len - at]>>
               [] OTHER ->
                    LET p == SplitNode(t.rs[k], w[3])
                    IN  <<[ls |-> t.ls, root |-> t.root, rs |-> <<p[1]>> \o SubSeq(t.rs, k + 1, Len(t.rs)),
                           len |-> at],
                          [ls |-> <<>>, root |-> none, rs |-> Append(SubSeq(t.rs, 1, k - 1), p[2]),
                           len |-> t.len - at]>>
       IN  <<Mend(parts[1], "B"), Mend(parts[2], "F")>>

InsertAtPos(t, i, x) == LET p == SplitOff(t, i) IN Concat(Push(p[1], "B", x), p[2])
RemoveAtPos(t, i) == LET p == SplitOff(t, i) IN Concat(p[1], Pop(p[2], "F")[2])
Extract(t, s, e) ==   \* <<what is left, the slice>>
  LET p == SplitOff(t, e)
      q == SplitOff(p[1], s)
  IN  <<Concat(q[1], p[2]), q[2]>>

(* constant_vec_of_length: doubling                                           *)
RECURSIVE DoubleFrom(_, _, _, _)
DoubleFrom(store, acc, n, bit) ==
  IF acc.len > n THEN store
  ELSE DoubleFrom(IF (n \div bit) % 2 = 1 THEN Concat(store, acc) ELSE store, Concat(acc, acc), n, bit * 2)
Constant(x, n) == DoubleFrom(New, Push(New, "B", x), n, 1)

-------------------------------------------------------------------------------
RECURSIVE Elems(_)
Elems(n) == IF n.lv = 0 THEN n.c ELSE FlattenSeq([i \in 1..Len(n.c) |-> Elems(n.c[i])])
Contents(t) ==
  FlattenSeq([i \in 1..Len(t.ls) |-> Elems(t.ls[i])]) \o Elems(t.root)
    \o FlattenSeq([i \in 1..Len(t.rs) |-> Elems(t.rs[Len(t.rs) + 1 - i])])

(* Elements numbered in order from k up.                                       *)
RECURSIVE Relabel(_, _)
Offsets(k, lens) == [i \in 1..Len(lens) |-> k + Sum(SubSeq(lens, 1, i - 1))]
Relabel(n, k) ==
  IF n.lv = 0 THEN [n EXCEPT !.c = [i \in 1..Len(@) |-> k + i - 1]]
  ELSE LET o == Offsets(k, n.sz) IN [n EXCEPT !.c = [i \in 1..Len(@) |-> Relabel(@[i], o[i])]]
Numbered(t, k) ==
  LET h == Len(t.ls)
      ol == Offsets(k, [i \in 1..h |-> NLen(t.ls[i])])
      kr == k + Sum([i \in 1..h |-> NLen(t.ls[i])])
      kb == kr + NLen(t.root)
      ob == Offsets(kb, [i \in 1..h |-> NLen(t.rs[h + 1 - i])])
  IN  [t EXCEPT !.ls = [i \in 1..h |-> Relabel(@[i], ol[i])],
                !.root = Relabel(@, kr),
                !.rs = [i \in 1..h |-> Relabel(@[i], ob[h + 1 - i])]]

(* The shape in the form ShapeCheck judges and the library dumps.              *)
RECURSIVE NodeShape(_)
NodeShape(n) == IF n.lv = 0 THEN <<0, Len(n.c)>> ELSE <<n.lv, n.sz, [i \in 1..Len(n.c) |-> NodeShape(n.c[i])]>>
Shape(t) == <<t.len, [i \in 1..Len(t.ls) |-> NodeShape(t.ls[i])], NodeShape(t.root),
              [i \in 1..Len(t.rs) |-> NodeShape(t.rs[i])]>>
(* Every element the same: trees of one shape are one state.                   *)
RECURSIVE Blank(_)
Blank(n) == IF n.lv = 0 THEN [n EXCEPT !.c = [i \in 1..Len(@) |-> 0]]
            ELSE [n EXCEPT !.c = [i \in 1..Len(@) |-> Blank(@[i])]]
Blanked(t) == [t EXCEPT !.ls = [i \in 1..Len(@) |-> Blank(@[i])], !.root = Blank(@),
                        !.rs = [i \in 1..Len(@) |-> Blank(@[i])]]
===============================================================================

-------------------------------- MODULE VecApi --------------------------------
(* What a user of the library sees: a number of vectors, each a handle with  *)
(* the sequence of its elements, the operations on them, and at most one open *)
(* session (an iterator's life, a tree of foci's life).  One public call is   *)
(* one action.                                                               *)
(*                                                                           *)
(* out is what the call gave back: r the result (<<>> for None or nothing),   *)
(* p whether it panics: "no", "yes", or "may" where the documentation leaves  *)
(* it open.                                                                  *)
(*                                                                           *)
(* own is a ghost: the handles whose storage certainly is theirs alone.  A    *)
(* clone, and whatever is joined to or cut from one, loses it.                *)
EXTENDS Ropes

VARIABLES vec, alive, own, ses, out
api == <<vec, alive, own, ses, out>>

NoFoci == <<>>
NoSession == [k |-> "none", h |-> 0, kind |-> 0, pre |-> <<>>, mid |-> <<>>, post |-> <<>>,
              foci |-> NoFoci, own |-> FALSE]

Gives(r) == out' = [r |-> r, p |-> "no"]
Panics == out' = [r |-> <<>>, p |-> "yes"]
MayPanic(r) == out' = [r |-> r, p |-> "may"]

SetVec(h, s) == vec' = (h :> s) @@ vec
Put2(h, s, g, t) == vec' = (h :> s) @@ (g :> t) @@ vec

L(h) == RLen(vec[h])
B(b) == IF b THEN 1 ELSE 0
Lesser(x, y) == IF x < y THEN x ELSE y
Greater(x, y) == IF x < y THEN y ELSE x

ApiInit ==
  /\ vec = <<>>
  /\ alive = {}
  /\ own = {}
  /\ ses = NoSession
  /\ out = [r |-> <<>>, p |-> "no"]

(* A caller's range, as kind (0 unbounded, 1 included, 2 excluded) and value, *)
(* and the half-open range of positions it stands for in a sequence of n.     *)
SpanStart(k, x) == IF k = 0 THEN 0 ELSE IF k = 1 THEN x ELSE x + 1
SpanEnd(k, x, n) == IF k = 0 THEN n ELSE IF k = 1 THEN x + 1 ELSE x
Span(a, n) == <<SpanStart(a[1], a[2]), SpanEnd(a[3], a[4], n)>>

(* The orders the workloads sort and search by.                               *)
Key(kind, m, x) ==
  CASE kind = 0 -> x
    [] kind = 1 -> -x
    [] kind = 2 -> x % m
    [] kind = 3 -> x \div m
    [] kind = 4 -> 0
    [] OTHER -> (x * 31) % m

-------------------------------------------------------------------------------
(* Construction and destruction                                               *)

Make(h, s) ==
  /\ h \notin alive
  /\ SetVec(h, s)
  /\ alive' = alive \union {h}
  /\ own' = own \union {h}
  /\ Gives(<<>>)
  /\ UNCHANGED ses

(* Equal elements everywhere: the parts may be shared from the start.          *)
MakeConst(h, s) ==
  /\ h \notin alive
  /\ SetVec(h, s)
  /\ alive' = alive \union {h}
  /\ Gives(<<>>)
  /\ UNCHANGED <<own, ses>>

Clone(h, g) ==
  /\ h \in alive /\ g \notin alive
  /\ SetVec(g, vec[h])
  /\ alive' = alive \union {g}
  /\ own' = own \ {h, g}
  /\ Gives(<<>>)
  /\ UNCHANGED ses

CloneFrom(h, g) ==
  /\ h \in alive /\ g \in alive /\ h # g
  /\ SetVec(h, vec[g])
  /\ own' = own \ {h, g}
  /\ Gives(<<>>)
  /\ UNCHANGED <<alive, ses>>

Drop(h) ==
  /\ h \in alive
  /\ alive' = alive \ {h}
  /\ own' = own \ {h}
  /\ SetVec(h, <<>>)
  /\ Gives(<<>>)
  /\ UNCHANGED ses

(* An operation that replaces the contents of h and gives back r.             *)
Becomes(h, s, r) ==
  /\ h \in alive
  /\ SetVec(h, s)
  /\ Gives(r)
  /\ UNCHANGED <<alive, own, ses>>

(* An operation that only reads.                                              *)
Reads(r) == Gives(r) /\ UNCHANGED <<vec, alive, own, ses>>
Refuses == Panics /\ UNCHANGED <<vec, alive, own, ses>>

-------------------------------------------------------------------------------
(* The two ends                                                               *)

PushBack(h, x, n) == Becomes(h, RCat(vec[h], RRun(x, n)), <<>>)
PushFront(h, x, n) == Becomes(h, RCat(RRun(x, n), vec[h]), <<>>)
PopBack(h) ==
  IF L(h) = 0 THEN Becomes(h, <<>>, <<>>)
  ELSE Becomes(h, RTake(vec[h], L(h) - 1), <<RAt(vec[h], L(h) - 1)>>)
PopFront(h) ==
  IF L(h) = 0 THEN Becomes(h, <<>>, <<>>)
  ELSE Becomes(h, RDrop(vec[h], 1), <<RAt(vec[h], 0)>>)
(* n pops in a row; the popped elements in the order they had in the vector.  *)
PopBackN(h, n) ==
  LET k == L(h) - Lesser(n, L(h)) IN Becomes(h, RTake(vec[h], k), RDrop(vec[h], k))
PopFrontN(h, n) ==
  LET k == Lesser(n, L(h)) IN Becomes(h, RDrop(vec[h], k), RTake(vec[h], k))

-------------------------------------------------------------------------------
(* Joining and cutting                                                        *)

Joined(h, s, g) ==
  /\ h \in alive /\ g \in alive /\ h # g
  /\ Put2(h, s, g, <<>>)
  /\ alive' = alive \ {g}
  /\ own' = IF h \in own /\ g \in own THEN own \ {g} ELSE own \ {h, g}
  /\ Gives(<<>>)
  /\ UNCHANGED ses
(* Many vectors joined on, one after the other: n elements from x up in all.   *)
JoinMany(h, x, n, front) ==
  Becomes(h, IF front = 1 THEN RCat(RRun(x, n), vec[h]) ELSE RCat(vec[h], RRun(x, n)), <<>>)
JoinedClone(h, s, g) ==
  /\ h \in alive /\ g \in alive
  /\ SetVec(h, s)
  /\ own' = own \ {h, g}
  /\ Gives(<<>>)
  /\ UNCHANGED <<alive, ses>>
AppendVec(h, g) == Joined(h, RCat(vec[h], vec[g]), g)
PrependVec(h, g) == Joined(h, RCat(vec[g], vec[h]), g)
AppendClone(h, g) == JoinedClone(h, RCat(vec[h], vec[g]), g)
PrependClone(h, g) == JoinedClone(h, RCat(vec[g], vec[h]), g)

Cut(h, s, g, t) ==
  /\ h \in alive /\ g \notin alive
  /\ Put2(h, s, g, t)
  /\ alive' = alive \union {g}
  /\ own' = IF h \in own THEN own \union {g} ELSE own
  /\ Gives(<<>>)
  /\ UNCHANGED ses
SplitOff(h, at, g) == Cut(h, RTake(vec[h], at), g, RDrop(vec[h], at))
SliceFromStart(h, n) == Becomes(h, RTake(vec[h], n), <<>>)
SliceToEnd(h, n) == Becomes(h, RDrop(vec[h], n), <<>>)
(* Positions past the end mean the end.                                       *)
Extract(h, sp, g) ==
  LET e == Lesser(sp[2], L(h))
      s == Lesser(sp[1], e)
  IN  Cut(h, RCat(RTake(vec[h], s), RDrop(vec[h], e)), g, RSlice(vec[h], s, e))

Insert(h, at, x) == Becomes(h, RInsert(vec[h], Lesser(at, L(h)), x), <<>>)
RemoveAt0(h, at) ==
  IF at < L(h) THEN Becomes(h, RRemove(vec[h], at), <<RAt(vec[h], at)>>)
  ELSE Becomes(h, vec[h], <<>>)

-------------------------------------------------------------------------------
(* Reading and writing single elements                                        *)

AtOrNone(s, i) == IF 0 <= i /\ i < RLen(s) THEN <<RAt(s, i)>> ELSE <<>>
Get(h, i) == Reads(AtOrNone(vec[h], i))
IndexAt(h, i) == IF i < L(h) THEN Reads(<<RAt(vec[h], i)>>) ELSE Refuses
FrontOf(h) == Reads(AtOrNone(vec[h], 0))
BackOf(h) == Reads(AtOrNone(vec[h], L(h) - 1))
LenOf(h) == Reads(<<L(h), B(L(h) = 0)>>)
ReadAll(h) == Reads(vec[h])

(* how: 0 get_mut, 1 get_mut_guarded, 2 indexing, 3 front_mut, 4 back_mut      *)
SetAt(h, i0, x, how) ==
  LET i == IF how = 3 THEN 0 ELSE IF how = 4 THEN L(h) - 1 ELSE i0
  IN  IF 0 <= i /\ i < L(h) THEN Becomes(h, RSet(vec[h], i, x), <<RAt(vec[h], i)>>)
      ELSE IF how = 2 THEN Refuses
      ELSE Reads(<<>>)

-------------------------------------------------------------------------------
(* Whole-vector operations                                                    *)

(* A range reaching past the end is refused.  One that ends before it starts  *)
(* may be; nothing changes.                                                   *)
Backwards(sp) == sp[1] > sp[2]
Declines == MayPanic(<<>>) /\ UNCHANGED <<vec, alive, own, ses>>
ReverseRange(h, sp) ==
  IF sp[2] > L(h) THEN Refuses
  ELSE IF Backwards(sp) THEN Declines
  ELSE Becomes(h, RPatch(vec[h], sp[1], sp[2], RRev(RSlice(vec[h], sp[1], sp[2]))), <<>>)

(* t is s with the positions sp[1]..sp[2]-1 put in order by key.  (Ranging    *)
(* over a set of one makes TLC work its element out once; a LET it may not.)  *)
Outside(s, t, sp) ==
  /\ RLen(s) = RLen(t)
  /\ RTake(s, sp[1]) = RTake(t, sp[1])
  /\ RDrop(s, sp[2]) = RDrop(t, sp[2])
Ordered(s, kind, m) ==
  \A q \in {Expand(s)} : \A i \in 1..(Len(q) - 1) : Key(kind, m, q[i]) <= Key(kind, m, q[i+1])
Shuffled(s, t, sp) ==
  Outside(s, t, sp) /\ SameBag(RSlice(s, sp[1], sp[2]), RSlice(t, sp[1], sp[2]))
SortedInto(s, t, sp, kind, m) ==
  Shuffled(s, t, sp) /\ Ordered(RSlice(t, sp[1], sp[2]), kind, m)

Sort(h, sp, kind, m, t) ==
  IF sp[2] > L(h) THEN Refuses
  ELSE IF Backwards(sp) THEN Declines
  ELSE SortedInto(vec[h], t, sp, kind, m) /\ Becomes(h, t, <<>>)

(* The same rearrangement of both: as a collection, the pairs stay together.  *)
PairsKept(s, u, t, w, sp) ==
  LET lt(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
      pairs(a, b) == [i \in 1..Len(a) |-> <<a[i], b[i]>>]
  IN  \A a \in {Expand(RSlice(s, sp[1], sp[2]))}, b \in {Expand(RSlice(u, sp[1], sp[2]))},
        c \in {Expand(RSlice(t, sp[1], sp[2]))}, d \in {Expand(RSlice(w, sp[1], sp[2]))} :
          InOrderOf(pairs(a, b), lt) = InOrderOf(pairs(c, d), lt)
DualSortedInto(s, u, t, w, sp, kind, m) ==
  /\ Outside(s, t, sp) /\ Outside(u, w, sp)
  /\ Ordered(RSlice(t, sp[1], sp[2]), kind, m)
  /\ PairsKept(s, u, t, w, sp)
DualSort(h, g, sp, kind, m, t, w) ==
  /\ h \in alive /\ g \in alive /\ h # g
  /\ IF sp[2] > L(h) \/ sp[2] > L(g) THEN Refuses
     ELSE IF Backwards(sp) THEN Declines
     ELSE /\ DualSortedInto(vec[h], vec[g], t, w, sp, kind, m)
          /\ Put2(h, t, g, w)
          /\ Gives(<<>>)
          /\ UNCHANGED <<alive, own, ses>>

Compare(h, g) ==
  LET c == RCmp(vec[h], vec[g])
  IN  Reads(<<B(c = 0), B(c # 0), c, c>>)

(* By elements that compare by x div q, and not at all if they leave 1 when     *)
(* divided by m (0: all of them do): equal, not equal, the order (9: none), <,  *)
(* <=, >, >=.  What counts is the first place that is not equal on both sides.  *)
Loosely(x, y, m, q) ==
  IF m > 0 /\ (x % m = 1 \/ y % m = 1) THEN 9
  ELSE IF x \div q < y \div q THEN -1 ELSE IF x \div q > y \div q THEN 1 ELSE 0
LooseCompare(h, g, m, q) ==
  \E a \in {Expand(vec[h])} : \E b \in {IF g = h THEN a ELSE Expand(vec[g])} :
  \E odd \in {{i \in 1..Lesser(Len(a), Len(b)) : Loosely(a[i], b[i], m, q) # 0}} :
    LET first == CHOOSE i \in odd : \A j \in odd : i <= j
        c == IF odd # {} THEN Loosely(a[first], b[first], m, q)
             ELSE IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE 0
    IN  Reads(<<B(c = 0), B(c # 0), c, B(c = -1), B(c \in {-1, 0}), B(c = 1), B(c \in {1, 0})>>)

(* Searching positions s..e-1 of a sequence for what cls calls 0 (before: -1, *)
(* after: 1); the segment must be in order.                                   *)
Found(q, sp, cls(_)) ==
  LET seg == Expand(RSlice(q, sp[1], sp[2]))
      lt == sp[1] + FoldLeft(LAMBDA n, x : IF cls(x) = -1 THEN n + 1 ELSE n, 0, seg)
      eq == FoldLeft(LAMBDA n, x : IF cls(x) = 0 THEN n + 1 ELSE n, 0, seg)
  IN  IF eq > 0 THEN <<1, lt, lt + eq>> ELSE <<0, lt>>
InOrder(q, sp, cls(_)) ==
  \A seg \in {Expand(RSlice(q, sp[1], sp[2]))} :
    \A i \in 1..(Len(seg) - 1) : cls(seg[i]) <= cls(seg[i+1])
Sign(x, y) == IF x < y THEN -1 ELSE IF x = y THEN 0 ELSE 1
Between(x, k1, v1, k2, v2) ==
  IF (k1 = 2 /\ x <= v1) \/ (k1 = 1 /\ x < v1) THEN -1
  ELSE IF (k2 = 2 /\ x >= v2) \/ (k2 = 1 /\ x > v2) THEN 1
  ELSE 0
(* mode: 0 equal_range, 1 ..in_range, 2 .._by, 3 ..in_range_by, 4 .._for_index_by, *)
(* 5 .._for_index_in_range_by, 6 between_range, 7 between_range_in_range           *)
Search(h, mode, kind, m, t, a, idx, k1, v1, k2, v2) ==
  LET q == vec[h]
      sp == IF mode \in {1, 3, 5, 7} THEN Span(a, L(h)) ELSE <<0, L(h)>>
      cls(x) == CASE mode \in {0, 1} -> Sign(x, Greater(t, 0))
                  [] mode \in {6, 7} -> Between(x, k1, v1, k2, v2)
                  [] OTHER -> Sign(Key(kind, m, x), t)
  IN  IF sp[2] > L(h) \/ sp[1] > sp[2] \/ ~InOrder(q, sp, cls)
      THEN MayPanic(<<>>) /\ UNCHANGED <<vec, alive, own, ses>>   \* not a call the API answers
      ELSE IF mode \in {4, 5}
      THEN IF sp[1] <= idx /\ idx < sp[2] /\ cls(RAt(q, idx)) = 0
           THEN Reads(Found(q, sp, cls))
           ELSE Reads(<<1, 0, 0>>)
      ELSE Reads(Found(q, sp, cls))

-------------------------------------------------------------------------------
(* Iterators.  The session keeps what was given out at the front, what is     *)
(* left, and what was given out at the back, so that writes through an        *)
(* iter_mut land where they belong.                                          *)

IterOpen(h, kind) ==
  /\ ses.k = "none" /\ h \in alive
  /\ ses' = [NoSession EXCEPT !.k = "it", !.h = h, !.kind = kind, !.mid = vec[h], !.own = h \in own]
  /\ IF kind = 2
     THEN alive' = alive \ {h} /\ SetVec(h, <<>>) /\ own' = own \ {h}
     ELSE UNCHANGED <<vec, alive, own>>
  /\ Gives(<<>>)

Iterating == ses.k = "it" /\ UNCHANGED <<vec, alive, own>>
Left == RLen(ses.mid)

(* next: the n-th of what is left (0: the very next), replaced by put.        *)
TakeFront(n, put) ==
  /\ Iterating
  /\ IF n < Left
     THEN LET x == RAt(ses.mid, n)
              given == RCat(RTake(ses.mid, n), IF put = <<>> THEN ROne(x) ELSE ROne(put[1]))
          IN  /\ ses' = [ses EXCEPT !.pre = RCat(@, given), !.mid = RDrop(@, n + 1)]
              /\ Gives(<<x>>)
     ELSE /\ ses' = [ses EXCEPT !.pre = RCat(@, ses.mid), !.mid = <<>>]
          /\ Gives(<<>>)
TakeBack(n, put) ==
  /\ Iterating
  /\ IF n < Left
     THEN LET i == Left - 1 - n
              x == RAt(ses.mid, i)
              given == RCat(IF put = <<>> THEN ROne(x) ELSE ROne(put[1]), RDrop(ses.mid, i + 1))
          IN  /\ ses' = [ses EXCEPT !.post = RCat(given, @), !.mid = RTake(@, i)]
              /\ Gives(<<x>>)
     ELSE /\ ses' = [ses EXCEPT !.post = RCat(ses.mid, @), !.mid = <<>>]
          /\ Gives(<<>>)
IterLen == Iterating /\ UNCHANGED ses /\ Gives(<<Left, Left, Left>>)
(* Everything that is left, at once; written over with x, x+1, ... if put.     *)
TakeRest(put) ==
  /\ Iterating
  /\ ses' = [ses EXCEPT !.pre = RCat(@, IF put = <<>> THEN ses.mid ELSE RRun(put[1], Left)),
                        !.mid = <<>>]
  /\ Gives(ses.mid)
(* Used up by value, all at once: only how many there were, or only the last.   *)
IterCount ==
  /\ Iterating
  /\ ses' = [ses EXCEPT !.pre = RCat(@, ses.mid), !.mid = <<>>]
  /\ Gives(<<Left>>)
IterLast ==
  /\ Iterating
  /\ ses' = [ses EXCEPT !.pre = RCat(@, ses.mid), !.mid = <<>>]
  /\ Gives(AtOrNone(ses.mid, Left - 1))
(* A copy of a reading iterator goes on from where it is, by itself.            *)
IterFork == Iterating /\ ses.kind = 0 /\ UNCHANGED ses /\ Gives(ses.mid)
IterClose ==
  /\ ses.k = "it"
  /\ ses' = NoSession
  /\ IF ses.kind = 1
     THEN SetVec(ses.h, RCat(RCat(ses.pre, ses.mid), ses.post))
     ELSE UNCHANGED vec
  /\ Gives(<<>>)
  /\ UNCHANGED <<alive, own>>

-------------------------------------------------------------------------------
(* Foci.  A focus is a window lo..hi-1 of the vector; a mutable focus that    *)
(* was split is out of reach until both halves are gone.                      *)

FociOpen(h, k) ==
  /\ ses.k = "none" /\ h \in alive
  /\ ses' = [NoSession EXCEPT !.k = k, !.h = h, !.own = h \in own,
             !.foci = IF k = "fm" THEN (0 :> <<0, L(h)>>) ELSE NoFoci]
  /\ UNCHANGED <<vec, alive, own>>
  /\ Gives(<<>>)
FociClose(k) ==
  /\ ses.k = k
  /\ ses' = NoSession
  /\ UNCHANGED <<vec, alive, own>>
  /\ Gives(<<>>)

Drops(f, keys) == [x \in (DOMAIN f) \ keys |-> f[x]]
InSes(k) == ses.k = k /\ UNCHANGED <<alive, own>>
HasF(f) == f \in DOMAIN ses.foci
Lo(f) == ses.foci[f][1]
Hi(f) == ses.foci[f][2]
Win(f) == RSlice(vec[ses.h], Lo(f), Hi(f))
Keeps == UNCHANGED <<vec, ses>>

FocusNew(f, s, e) ==
  /\ InSes("fc")
  /\ LET n == RLen(vec[ses.h])
     IN  ses' = [ses EXCEPT !.foci = (f :> <<Lesser(s, n), Lesser(e, n)>>) @@ @]
  /\ UNCHANGED vec
  /\ Gives(<<>>)
FocusGet(k, f, i) == InSes(k) /\ HasF(f) /\ Keeps /\ Gives(AtOrNone(Win(f), i))
FocusLen(k, f) == InSes(k) /\ HasF(f) /\ Keeps /\ Gives(<<Hi(f) - Lo(f), B(Hi(f) = Lo(f))>>)
FocusAll(f) == InSes("fc") /\ HasF(f) /\ Keeps /\ Gives(Win(f))
FocusNarrow(f, a) ==
  /\ InSes("fc") /\ HasF(f)
  /\ LET sp == Span(a, Hi(f) - Lo(f))
     IN  IF sp[2] > Hi(f) - Lo(f) THEN Keeps /\ Panics
         ELSE /\ ses' = [ses EXCEPT !.foci = (f :> <<Lo(f) + sp[1], Lo(f) + sp[2]>>) @@ @]
              /\ UNCHANGED vec
              /\ Gives(<<>>)
(* Splitting a read focus uses it up.  At its very end the call may refuse.   *)
FocusSplit(f, at, l, r) ==
  /\ InSes("fc") /\ HasF(f)
  /\ IF at > Hi(f) - Lo(f) THEN Keeps /\ Panics
     ELSE /\ ses' = [ses EXCEPT !.foci = (l :> <<Lo(f), Lo(f) + at>>) @@ (r :> <<Lo(f) + at, Hi(f)>>)
                                         @@ Drops(@, {f})]
          /\ UNCHANGED vec
          /\ IF at = Hi(f) - Lo(f) THEN MayPanic(<<>>) ELSE Gives(<<>>)
FocusClone(f, g) ==
  /\ InSes("fc") /\ HasF(f)
  /\ ses' = [ses EXCEPT !.foci = (g :> ses.foci[f]) @@ @]
  /\ UNCHANGED vec
  /\ Gives(<<>>)
FocusIndex(k, f, i) ==
  /\ InSes(k) /\ HasF(f) /\ Keeps
  /\ IF i < Hi(f) - Lo(f) THEN Gives(<<RAt(Win(f), i)>>) ELSE Panics

FmSet(f, i, x) ==
  /\ InSes("fm") /\ HasF(f) /\ UNCHANGED ses
  /\ IF i < Hi(f) - Lo(f)
     THEN SetVec(ses.h, RSet(vec[ses.h], Lo(f) + i, x)) /\ Gives(<<RAt(vec[ses.h], Lo(f) + i)>>)
     ELSE UNCHANGED vec /\ Gives(<<>>)
FmSplit(f, at, l, r) ==
  /\ InSes("fm") /\ HasF(f)
  /\ IF at > Hi(f) - Lo(f) THEN Keeps /\ Panics
     ELSE /\ ses' = [ses EXCEPT !.foci = (l :> <<Lo(f), Lo(f) + at>>) @@ (r :> <<Lo(f) + at, Hi(f)>>)
                                         @@ Drops(@, {f})]
          /\ UNCHANGED vec
          /\ Gives(<<>>)
FmJoin(f, l, r) ==
  /\ InSes("fm") /\ HasF(l) /\ HasF(r)
  /\ ses' = [ses EXCEPT !.foci = (f :> <<Lo(l), Hi(r)>>) @@ Drops(@, {l, r})]
  /\ UNCHANGED vec
  /\ Gives(<<>>)
FmSwap(f, i, g, j) ==
  /\ InSes("fm") /\ HasF(f) /\ HasF(g) /\ f # g /\ UNCHANGED ses
  /\ LET p == Lo(f) + i  q == Lo(g) + j
         x == RAt(vec[ses.h], p)  y == RAt(vec[ses.h], q)
     IN  SetVec(ses.h, RSet(RSet(vec[ses.h], p, y), q, x))
  /\ Gives(<<>>)
FmFill(f, x) ==
  /\ InSes("fm") /\ HasF(f) /\ UNCHANGED ses
  /\ SetVec(ses.h, RPatch(vec[ses.h], Lo(f), Hi(f), RRun(x, Hi(f) - Lo(f))))
  /\ Gives(Win(f))

(* Threads, one to each part of a split mutable focus, read and overwrite     *)
(* their parts: together, the whole vector.                                   *)
ParFill(x) ==
  /\ InSes("par") /\ UNCHANGED ses
  /\ SetVec(ses.h, RRun(x, RLen(vec[ses.h])))
  /\ Gives(vec[ses.h])

-------------------------------------------------------------------------------
(* Interrupted operations: a caller's comparison, iterator or element clone   *)
(* panics half way.                                                           *)

BombSort(h, sp, t) ==
  /\ h \in alive /\ Shuffled(vec[h], t, sp)
  /\ SetVec(h, t)
  /\ MayPanic(<<>>)
  /\ UNCHANGED <<alive, own, ses>>
BombDual(h, g, sp, t, w) ==
  /\ h \in alive /\ g \in alive /\ h # g
  /\ Shuffled(vec[h], t, sp) /\ Shuffled(vec[g], w, sp)
  /\ Put2(h, t, g, w)
  /\ MayPanic(<<>>)
  /\ UNCHANGED <<alive, own, ses>>
(* A vector in whose operation an element's clone panicked is dropped; every  *)
(* other vector is as it was.                                                 *)
Lost(hs) ==
  /\ hs \subseteq alive
  /\ alive' = alive \ hs
  /\ own' = own \ hs
  /\ vec' = [h \in hs |-> <<>>] @@ vec
  /\ MayPanic(<<>>)
  /\ UNCHANGED ses

-------------------------------------------------------------------------------
TypeOK ==
  /\ \A h \in alive : h \in DOMAIN vec /\ IsRope(vec[h])
  /\ own \subseteq alive
  /\ IsRope(ses.pre) /\ IsRope(ses.mid) /\ IsRope(ses.post)
  /\ \A f \in DOMAIN ses.foci : 0 <= Lo(f) /\ Lo(f) <= Hi(f) /\ Hi(f) <= RLen(vec[ses.h])
===============================================================================

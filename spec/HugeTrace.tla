------------------------------ MODULE HugeTrace -------------------------------
(* Is a recorded run over vectors longer than memory a behaviour of vectors?  *)
(* Every line is a call with its arguments, results, and what was then seen   *)
(* of every vector: its length, elements at the ends of its runs and at       *)
(* random, the height of its tree.  Elements that take no room are counted.   *)
EXTENDS Huge, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, vec, world, hts, grown, pure, bad
vars == <<l, vec, world, hts, grown, pure, bad>>

Init == /\ l = 1 /\ vec = <<>> /\ hts = <<>> /\ grown = {} /\ pure = TRUE
        /\ world = [w |-> 64, counted |-> FALSE]
        /\ bad = ""

NoVec == <<>>
With(h, s) == [x \in DOMAIN vec \cup {h} |-> IF x = h THEN s ELSE vec[x]]
Less(h) == [x \in DOMAIN vec \ {h} |-> vec[x]]
Bool(b) == IF b THEN 1 ELSE 0
Does(v) == [vec |-> v, rv |-> <<>>, rn |-> <<>>]
Says(v, rv, rn) == [vec |-> v, rv |-> rv, rn |-> rn]

(* Places taken by turns from the front and from the back: what was there.    *)
RECURSIVE Steps(_, _, _)
Steps(s, steps, acc) ==
  IF steps = <<>> THEN <<acc, HLen(s)>>
  ELSE IF steps[1] = 0 THEN Steps(Drop(s, Num(1)), Tail(steps), Append(acc, At(s, Zero)))
  ELSE LET n == HLen(s)
           m == IF n = Zero THEN Zero ELSE Sub(n, Num(1))
       IN  Steps(Take(s, m), Tail(steps), Append(acc, IF n = Zero THEN Nothing ELSE At(s, m)))
(* The same, written: <<where, element, ...>>.  pre and post are done.         *)
RECURSIVE Writes(_, _, _, _, _)
Writes(pre, s, post, steps, acc) ==
  IF steps = <<>> THEN [s |-> Cat(Cat(pre, s), post), rv |-> acc, left |-> HLen(s)]
  ELSE IF s = <<>> THEN Writes(pre, s, post, SubSeq(steps, 3, Len(steps)), Append(acc, Nothing))
  ELSE IF steps[1] = 0
  THEN Writes(Cat(pre, Rep(steps[2], Num(1))), Drop(s, Num(1)), post, SubSeq(steps, 3, Len(steps)), Append(acc, At(s, Zero)))
  ELSE LET m == Sub(HLen(s), Num(1))
       IN  Writes(pre, Take(s, m), Cat(Rep(steps[2], Num(1)), post), SubSeq(steps, 3, Len(steps)), Append(acc, At(s, m)))
(* Places of the two parts of a mutable focus, by turns, read and written.    *)
RECURSIVE Pokes(_, _, _, _, _)
Pokes(s, m, at, vals, acc) ==
  IF at = <<>> THEN [s |-> s, rv |-> acc]
  ELSE LET left == Len(acc) % 2 = 0
           n == IF left THEN m ELSE Sub(HLen(s), m)
           i == IF left THEN at[1] ELSE Add(m, at[1])
       IN  IF Lt(at[1], n)
           THEN Pokes(Put(s, i, vals[1]), m, Tail(at), Tail(vals), Append(acc, At(s, i)))
           ELSE Pokes(s, m, Tail(at), Tail(vals), Append(acc, Nothing))

Searched(s, lo, t) ==
  LET lt == Count(s, t, FALSE)
      eq == Count(s, t, TRUE)
  IN  IF eq = Zero THEN Says(vec, <<0>>, <<Add(lo, lt)>>)
      ELSE Says(vec, <<1>>, <<Add(lo, lt), Add(Add(lo, lt), eq)>>)

OfNone(s) == IF s = <<>> THEN 0 ELSE 1
Step(e) ==
  LET h == e.a[1]
      s == IF h \in DOMAIN vec THEN vec[h] ELSE NoVec
      n == HLen(s)
      g == IF Len(e.a) > 1 THEN e.a[2] ELSE h
      t == IF g \in DOMAIN vec THEN vec[g] ELSE NoVec
      last == IF n = Zero THEN Zero ELSE Sub(n, Num(1))
      no == e.n
  IN
  CASE e.op \in {"const", "from_iter"} -> Does(With(h, Rep(e.v[1], no[1])))
    [] e.op = "push_back" -> Does(With(h, Cat(s, Rep(e.v[1], Num(1)))))
    [] e.op = "push_front" -> Does(With(h, Cat(Rep(e.v[1], Num(1)), s)))
    [] e.op = "pop_back" -> Says(With(h, Take(s, last)), <<IF n = Zero THEN Nothing ELSE At(s, last)>>, <<>>)
    [] e.op = "pop_front" -> Says(With(h, Drop(s, Num(1))), <<At(s, Zero)>>, <<>>)
    [] e.op = "front" -> Says(vec, <<At(s, Zero)>>, <<>>)
    [] e.op = "back" -> Says(vec, <<IF n = Zero THEN Nothing ELSE At(s, last)>>, <<>>)
    [] e.op = "append" -> Does([x \in DOMAIN vec \ {g} |-> IF x = h THEN Cat(s, t) ELSE vec[x]])
    [] e.op = "prepend" -> Does([x \in DOMAIN vec \ {g} |-> IF x = h THEN Cat(t, s) ELSE vec[x]])
    [] e.op = "append_clone" -> Does(With(h, Cat(s, t)))
    [] e.op = "prepend_clone" -> Does(With(h, Cat(t, s)))
    [] e.op = "split_off" ->
         Does([x \in DOMAIN vec \cup {g} |-> IF x = h THEN Take(s, no[1]) ELSE IF x = g THEN Drop(s, no[1]) ELSE vec[x]])
    [] e.op = "slice_from_start" -> Does(With(h, Take(s, no[1])))
    [] e.op = "slice_to_end" -> Does(With(h, Drop(s, no[1])))
    [] e.op = "extract" ->
         Does([x \in DOMAIN vec \cup {g} |-> IF x = h THEN Cat(Take(s, no[1]), Drop(s, no[2]))
                                             ELSE IF x = g THEN Drop(Take(s, no[2]), no[1]) ELSE vec[x]])
    [] e.op = "insert" -> Does(With(h, Cat(Cat(Take(s, no[1]), Rep(e.v[1], Num(1))), Drop(s, no[1]))))
    [] e.op = "remove" -> Says(With(h, Cat(Take(s, no[1]), Drop(Drop(s, no[1]), Num(1)))), <<At(s, no[1])>>, <<>>)
    [] e.op \in {"get", "index"} -> Says(vec, <<At(s, no[1])>>, <<>>)
    [] e.op = "set" -> Says(With(h, Put(s, no[1], e.v[1])), <<Bool(Lt(no[1], n))>>, <<>>)
    [] e.op = "clone" -> Does(With(g, s))
    [] e.op = "clone_from" -> Does(With(h, t))
    [] e.op \in {"drop"} -> Does(Less(h))
    [] e.op = "end" -> Does(<<>>)
    [] e.op = "fc_get" ->
         LET w == Drop(Take(s, no[2]), no[1])
             x == Drop(Take(w, no[4]), no[3])
             lft == Take(x, no[5])
             rgt == Drop(x, no[5])
         IN  Says(vec, [i \in 1..(Len(no) - 5) |-> At(IF i % 2 = 1 THEN lft ELSE rgt, no[5 + i])], <<HLen(lft), HLen(rgt)>>)
    [] e.op = "fm_set" ->
         LET p == Pokes(s, no[1], Tail(no), e.v, <<>>)
         IN  Says(With(h, p.s), p.rv, <<no[1], Sub(n, no[1])>>)
    [] e.op = "it_next" -> LET p == Steps(s, e.v, <<>>) IN Says(vec, p[1], <<p[2], p[2]>>)
    [] e.op = "into_iter" -> LET p == Steps(s, e.v, <<>>) IN Says(Less(h), p[1], <<p[2]>>)
    [] e.op = "it_next_set" -> LET p == Writes(<<>>, s, <<>>, e.v, <<>>) IN Says(With(h, p.s), p.rv, <<p.left>>)
    [] e.op = "erange" -> IF e.v[2] \in {0, 2} THEN Searched(s, Zero, e.v[1])
                          ELSE Searched(Drop(Take(s, no[2]), no[1]), no[1], e.v[1])
    [] e.op = "all" -> Says(vec, <<1>>, <<n, n>>)
    [] e.op \in {"sort", "dual", "reverse_range"} ->
         LET mid == Drop(Take(s, no[2]), no[1])
             new == IF e.op = "reverse_range" THEN Backwards(mid) ELSE IF e.v[1] = 2 THEN Backwards(Ordered(mid)) ELSE Ordered(mid)
             res == Cat(Cat(Take(s, no[1]), new), Drop(s, no[2]))
         IN  (* the other vector of a dual sort is a clone, so it ends up the same *)
             Does([x \in DOMAIN vec \cup {h, g} |-> IF x = h \/ (e.op = "dual" /\ x = g) THEN res ELSE vec[x]])
    [] e.op = "cost" -> Says(vec, e.rv, <<>>)
    [] e.op = "cmp" -> LET o == IF Lt(n, HLen(t)) THEN -1 ELSE IF n = HLen(t) THEN 0 ELSE 1
                       IN  Says(vec, <<Bool(o = 0), o, e.rv[3]>>, <<>>)

(* How tall a tree may be: as in VecTrace.                                     *)
Makes == {"const", "from_iter"}
JoinsTwo == {"append", "prepend", "append_clone", "prepend_clone"}
Cuts == {"pop_back", "pop_front", "slice_from_start", "slice_to_end", "split_off", "insert", "remove", "extract"}
GrownBy(e) ==
  LET h == e.a[1]  g == IF Len(e.a) > 1 THEN e.a[2] ELSE h IN
  IF e.op \in Makes THEN grown \cup {h}
  ELSE IF e.op \in {"clone", "dual"} THEN IF h \in grown THEN grown \cup {g} ELSE grown \ {g}
  ELSE IF e.op = "clone_from" THEN IF g \in grown THEN grown \cup {h} ELSE grown \ {h}
  ELSE IF e.op \in JoinsTwo THEN IF g \in grown THEN grown ELSE grown \ {h}
  ELSE IF e.op \in Cuts THEN grown \ {h, g}
  ELSE grown
RECURSIVE Shifted(_, _)
Shifted(x, k) == IF k = 0 THEN x ELSE Shifted(Add(x, x), k - 1)
Was(h) == IF h \in DOMAIN hts THEN hts[h] ELSE 0
HeightsOK(e) ==
  \A i \in 1..Len(e.ht) :
    LET h == e.ht[i][1]
        k == e.ht[i][2]
        g == IF Len(e.a) > 1 THEN e.a[2] ELSE e.a[1]
        before == IF h = e.a[1]
                  THEN IF e.op = "clone_from" THEN Was(g)
                       ELSE IF e.op \in JoinsTwo /\ Was(g) > Was(h) THEN Was(g) ELSE Was(h)
                  ELSE IF h = g /\ e.op \in {"clone", "dual", "split_off", "extract"} THEN Was(e.a[1]) ELSE Was(h)
        more == IF h \in {e.a[1], g} /\ e.op \in JoinsTwo \cup {"push_back", "push_front", "insert", "remove", "extract"}
                THEN 1 ELSE 0
    IN  /\ (e.op \in Makes /\ h = e.a[1]) \/ k <= before + more
        /\ (h \in grown' /\ k > 0) => Le(Shifted(Num(world.w), k - 1), HLen(vec'[h]))

(* How many elements a call may copy: as in VecTrace.                          *)
Shares == {"const", "clone", "dual", "clone_from", "append_clone", "prepend_clone"}
Budget(e) ==
  IF e.op \in {"clone", "clone_from", "drop", "end", "get", "index", "front", "back", "fc_get", "it_next", "all", "cmp", "erange"} THEN Zero
  ELSE IF e.op = "const" THEN Num(128 * (4 * world.w * world.w + 16 * world.w))
  ELSE IF e.op = "dual" THEN Add(Add(HLen(vec[e.a[1]]), HLen(vec[e.a[1]])), Num(4 * world.w))
  ELSE IF e.op \in {"sort", "reverse_range"} THEN Add(HLen(vec[e.a[1]]), Num(2 * world.w))
  ELSE IF pure /\ e.op \notin Shares THEN Zero
  ELSE IF e.op \in {"insert", "remove", "extract"} \cup JoinsTwo THEN Num(4 * world.w * world.w + 16 * world.w)
  ELSE Num(24 * world.w)

SumLen(v) ==
  LET RECURSIVE sum(_)
      sum(S) == IF S = {} THEN Zero ELSE LET x == CHOOSE x \in S : TRUE IN Add(HLen(v[x]), sum(S \ {x}))
  IN  sum(DOMAIN v)
Counted(e) ==
  \/ ~world.counted
  \/ pure' /\ e.alive = SumLen(vec')
  \/ /\ ~pure'
     /\ Le(e.alive, SumLen(vec'))
     /\ (SumLen(vec') # Zero => e.alive # Zero)

(* Nanoseconds a call takes on a vector of 500 and on one of 2^20 elements that *)
(* shares nothing: five to nine levels are a few times as much, not thousands. *)
Slow(e) == e.op = "cost" /\ e.rv[2] > 20 * (IF e.rv[1] > 1000000 THEN 1000000 ELSE e.rv[1]) + 300000
Seen(e) == {e.pr[i] : i \in 1..Len(e.pr)}
Lens(e) == {e.len[i] : i \in 1..Len(e.len)}
Wrong(e, h) == \/ \E x \in Lens(e) : x[1] = h /\ x[2] # HLen(vec'[h])
               \/ \E x \in Seen(e) : x[1] = h /\ x[3] # At(vec'[h], x[2])
Mine(e) == {e.a[i] : i \in 1..Len(e.a)}
Why(e, s) ==
  IF e.op = "crash" THEN "the process died"
  ELSE IF e.p = 1 THEN "panic: the call panicked"
  ELSE IF e.rv # s.rv \/ e.rn # s.rn THEN "result: not what the call gives back"
  ELSE IF Slow(e) THEN "cost: takes time in proportion to the length"
  ELSE IF e.op = "cmp" /\ e.rv[1] = 1 /\ e.rv[3] = 0 THEN "result: equal, and hashed differently"
  ELSE IF {x[1] : x \in Lens(e)} # DOMAIN vec' THEN "contents: a vector appeared or vanished"
  ELSE IF \E h \in DOMAIN vec' \ Mine(e) : Wrong(e, h) THEN "isolation: another vector changed"
  ELSE IF \E h \in DOMAIN vec' : Wrong(e, h) THEN "contents: not what the call leaves"
  ELSE IF ~Counted(e) THEN "ownership: elements leaked, duplicated or dropped early"
  ELSE IF e.c >= 0 /\ Lt(Budget(e), Num(e.c)) THEN "sharing: elements were copied"
  ELSE IF ~HeightsOK(e) THEN "height: the tree is too tall"
  ELSE ""

Next ==
  /\ l <= Len(Trace) /\ bad = ""
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.op = "reset"
     THEN /\ vec' = <<>> /\ hts' = <<>> /\ grown' = {} /\ pure' = TRUE /\ bad' = ""
          /\ world' = [w |-> e.a[1], counted |-> e.a[2] = 1]
     ELSE \E s \in {IF e.op = "crash" THEN Does(vec) ELSE Step(e)} :
          /\ vec' = s.vec
          /\ grown' = IF e.op = "crash" THEN {} ELSE GrownBy(e)
          /\ pure' = (pure /\ e.op \notin Shares)
          /\ world' = world
          /\ bad' = Why(e, s)
          /\ hts' = [h \in DOMAIN vec' |->
                      LET x == {e.ht[i] : i \in {j \in 1..Len(e.ht) : e.ht[j][1] = h}}
                      IN  IF x = {} THEN 0 ELSE (CHOOSE y \in x : TRUE)[2]]
Spec == Init /\ [][Next]_vars

NoBad == bad = "" \/ PrintT(<<"BAD", l - 1, bad>>) = FALSE
Stopped == PrintT(<<"READ", TLCGet("stats").diameter - 1, Len(Trace)>>)
Accepted == Stopped /\ TLCGet("stats").diameter - 1 = Len(Trace)
===============================================================================

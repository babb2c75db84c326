---------------------------------- MODULE Cow ----------------------------------
(* Storage shared by reference counts and copied when written, under threads.   *)
(* A vector is a root over leaves; every thread has vectors of its own (slots   *)
(* "a" and "b") and may look at one they all see ("K"), which nobody changes.   *)
(* What a call does is taken in the steps the library takes it in: making a     *)
(* node one's own is looking at its count and, if it is not 1, copying it child *)
(* by child or element by element, putting the copy in its place, and letting   *)
(* go of the old one, which whoever lets go last takes apart.  Threads may be   *)
(* stopped between any two steps.                                               *)
(*                                                                              *)
(* Fine: all the steps are there to be stopped at.  Otherwise a thread may only *)
(* be stopped where the library calls the elements' own code (clone, drop, a    *)
(* read) or between calls, which are the places the harness can stop a thread   *)
(* at: these behaviours are printed as schedules for the library to go through. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Threads, Leaves, Width, Budget, Switches, Objects, Fine, Emit,
          Rule      \* "sound"; others are faults the properties have to expose

VARIABLES heap,     \* object -> [rc, kind, kids, vals, by]
          hand,     \* thread -> slot -> root, 0 if none
          view,     \* thread -> slot -> what the vector is meant to hold
          todo,     \* thread -> the steps of its call that are left
          left,     \* thread -> calls it may still make
          holder, cnt, moves, path
vars == <<heap, hand, view, todo, left, holder, cnt, moves, path>>

Slots == {"a", "b"}
Obj == 1..Objects
K == 1                                \* the root everybody sees
Gone == [rc |-> 0, kind |-> "free", kids |-> <<>>, vals |-> <<>>, by |-> 0]
Free == {o \in Obj : heap[o].kind = "free"}
New == CHOOSE o \in Free : \A p \in Free : o <= p

Blank == [i \in 1..Leaves |-> [j \in 1..Width |-> 0]]
LeafId(i) == 1 + i
Node(rc, kids) == [rc |-> rc, kind |-> "inner", kids |-> kids, vals |-> <<>>, by |-> 0]
Leaf(rc, vals) == [rc |-> rc, kind |-> "leaf", kids |-> <<>>, vals |-> vals, by |-> 0]

(* At the start either all see one root, or everybody has a root of its own     *)
(* over leaves all share.                                                       *)
Init ==
  \E own \in BOOLEAN :
    LET n == Cardinality(Threads)
        Root(t) == IF own THEN 1 + Leaves + t ELSE 1
        kids == [i \in 1..Leaves |-> LeafId(i)]
    IN  /\ heap = [o \in Obj |->
             IF o = 1 THEN Node(IF own THEN 1 ELSE n + 1, kids)
             ELSE IF o <= 1 + Leaves THEN Leaf(IF own THEN n + 1 ELSE 1, Blank[o - 1])
             ELSE IF own /\ o <= 1 + Leaves + n THEN Node(1, kids) ELSE Gone]
        /\ hand = [t \in Threads |-> [s \in Slots |-> IF s = "a" THEN Root(t) ELSE 0]]
        /\ view = [t \in Threads |-> [s \in Slots |-> IF s = "a" THEN Blank ELSE <<>>]]
        /\ todo = [t \in Threads |-> <<>>]
        /\ left = [t \in Threads |-> Budget]
        /\ holder \in (IF Fine THEN {0} ELSE Threads)
        /\ cnt = 0 /\ moves = 0
        /\ path = IF own THEN "own" ELSE "same"

-------------------------------------------------------------------------------
(* Steps.  [k |-> kind, t, s: the slot; at: the leaf's place in its root, 0 for  *)
(* the root; o, n: objects; i: how far]                                          *)
S(k) == [k |-> k, s |-> "", at |-> 0, o |-> 0, n |-> 0, i |-> 0]
Own(s, at) == [S("own") EXCEPT !.s = s, !.at = at]
Dec(o) == [S("dec") EXCEPT !.o = o]
Write(s, at) == [S("write") EXCEPT !.s = s, !.at = at]
Done == [S("done") EXCEPT !.i = 0]

At(t, s, at) == IF at = 0 THEN hand[t][s] ELSE heap[hand[t][s]].kids[at]
Head1(t) == Head(todo[t])
Rest(t, more) == todo' = [todo EXCEPT ![t] = more \o Tail(@)]

(* A call begins: what it will take, and what the vector is to hold after. *)
Begin(t, name, steps, s, v) ==
  /\ todo[t] = <<>> /\ left[t] > 0
  /\ left' = [left EXCEPT ![t] = @ - 1]
  /\ todo' = [todo EXCEPT ![t] = steps]
  /\ view' = IF s = "" THEN view ELSE [view EXCEPT ![t][s] = v]
  /\ path' = IF Fine THEN path ELSE path \o "|" \o ToString(t) \o " " \o name
  /\ UNCHANGED heap

Mark(t) == t
Calls(t) ==
  \/ \E s \in Slots : hand[t][s] # 0 /\ UNCHANGED hand /\
       \/ \E i \in 1..Len(view[t][s]) :
            Begin(t, "w" \o s \o ToString(i), <<Own(s, 0), Own(s, i), Write(s, i)>>, s,
                  [view[t][s] EXCEPT ![i][1] = Mark(t)])
       \/ /\ Len(view[t][s]) > 1
          /\ Begin(t, "p" \o s, <<Own(s, 0), [S("chop") EXCEPT !.s = s]>>, s,
                   SubSeq(view[t][s], 1, Len(view[t][s]) - 1))
       \/ Begin(t, "d" \o s, <<[S("let") EXCEPT !.s = s]>>, s, <<>>)
       \/ Begin(t, "r" \o s, [i \in 1..Len(view[t][s]) |-> [S("read") EXCEPT !.s = s, !.at = i]], "", <<>>)
  \/ /\ hand[t]["a"] # 0 /\ hand[t]["b"] = 0
     /\ Begin(t, "c", <<[S("hold") EXCEPT !.s = "a"]>>, "b", view[t]["a"]) /\ UNCHANGED hand
  \/ \E s \in Slots : /\ hand[t][s] = 0
       /\ Begin(t, "k" \o s, <<[S("hold") EXCEPT !.s = "K", !.o = K, !.at = IF s = "a" THEN 1 ELSE 2]>>, s, Blank)
       /\ UNCHANGED hand

Inc(h, o) == [h EXCEPT ![o].rc = @ + 1]
Alone(o) == IF Rule = "lax" THEN heap[o].rc <= 2 ELSE heap[o].rc = 1

Micro(t) ==
  /\ todo[t] # <<>>
  /\ UNCHANGED <<left, path>>
  /\ LET m == Head1(t) IN
     CASE m.k = "own" ->
            LET o == At(t, m.s, m.at) IN
            IF Alone(o) \/ (Rule = "leafless" /\ heap[o].kind = "leaf")
            THEN Rest(t, <<>>) /\ UNCHANGED <<heap, hand, view>>
            ELSE \E n \in {New} :
                 /\ heap' = [heap EXCEPT ![n] = IF heap[o].kind = "inner" THEN Node(1, <<>>) ELSE Leaf(1, <<>>)]
                 /\ Rest(t, <<[m EXCEPT !.k = "copy", !.o = o, !.n = n, !.i = 1]>>)
                 /\ UNCHANGED <<hand, view>>
       [] m.k = "copy" ->
            LET o == heap[m.o]
                sz == IF o.kind = "inner" THEN Len(o.kids) ELSE Len(o.vals)
                nx == IF m.i = sz THEN <<[m EXCEPT !.k = "swap"]>> ELSE <<[m EXCEPT !.i = @ + 1]>>
            IN  /\ heap' = IF o.kind = "inner"
                           THEN IF Rule = "uncounted" THEN [heap EXCEPT ![m.n].kids = Append(@, o.kids[m.i])]
                                ELSE [Inc(heap, o.kids[m.i]) EXCEPT ![m.n].kids = Append(@, o.kids[m.i])]
                           ELSE [heap EXCEPT ![m.n].vals = Append(@, o.vals[m.i])]
                /\ Rest(t, nx) /\ UNCHANGED <<hand, view>>
       [] m.k = "swap" ->
            /\ IF m.at = 0 THEN hand' = [hand EXCEPT ![t][m.s] = m.n] /\ UNCHANGED heap
               ELSE heap' = [heap EXCEPT ![hand[t][m.s]].kids[m.at] = m.n] /\ UNCHANGED hand
            /\ Rest(t, IF Rule = "leaks" THEN <<>> ELSE <<Dec(m.o)>>) /\ UNCHANGED view
       [] m.k = "dec" ->
            /\ heap' = [heap EXCEPT ![m.o].rc = @ - 1]
            /\ Rest(t, IF heap[m.o].rc = 1 THEN <<[S("apart") EXCEPT !.o = m.o]>> ELSE <<>>)
            /\ UNCHANGED <<hand, view>>
       [] m.k = "apart" ->
            LET o == heap[m.o] IN
            /\ IF o.kids # <<>>
               THEN /\ heap' = [heap EXCEPT ![m.o].kids = Tail(@)]
                    /\ Rest(t, <<Dec(Head(o.kids)), m>>)
               ELSE IF o.vals # <<>>
               THEN heap' = [heap EXCEPT ![m.o].vals = Tail(@)] /\ Rest(t, <<m>>)
               ELSE heap' = [heap EXCEPT ![m.o] = Gone] /\ Rest(t, <<>>)
            /\ UNCHANGED <<hand, view>>
       [] m.k = "write" ->
            LET o == At(t, m.s, m.at) IN
            /\ heap' = [heap EXCEPT ![o].by = t]
            /\ Rest(t, <<[m EXCEPT !.k = "wrote"]>>) /\ UNCHANGED <<hand, view>>
       [] m.k = "wrote" ->
            LET o == At(t, m.s, m.at) IN
            /\ heap' = [heap EXCEPT ![o].by = 0, ![o].vals[1] = Mark(t)]
            /\ Rest(t, <<>>) /\ UNCHANGED <<hand, view>>
       [] m.k = "chop" ->
            LET r == hand[t][m.s]  ks == heap[r].kids IN
            /\ heap' = [heap EXCEPT ![r].kids = SubSeq(ks, 1, Len(ks) - 1)]
            /\ Rest(t, <<Dec(ks[Len(ks)])>>) /\ UNCHANGED <<hand, view>>
       [] m.k = "let" ->
            /\ hand' = [hand EXCEPT ![t][m.s] = 0]
            /\ Rest(t, <<Dec(hand[t][m.s])>>) /\ UNCHANGED <<heap, view>>
       [] m.k = "hold" ->
            LET o == IF m.s = "K" THEN K ELSE hand[t][m.s]
                s == IF m.s = "K" /\ m.at = 1 THEN "a" ELSE "b"
            IN  /\ heap' = Inc(heap, o) /\ hand' = [hand EXCEPT ![t][s] = o]
                /\ Rest(t, <<>>) /\ UNCHANGED view
       [] m.k = "read" ->
            /\ Assert(heap[At(t, m.s, m.at)].vals = view[t][m.s][m.at], "a thread read what is not its vector's")
            /\ Rest(t, <<>>) /\ UNCHANGED <<heap, hand, view>>

(* Where the elements' own code runs, and the calls' beginnings. *)
IsPoint(t) ==
  IF todo[t] = <<>> THEN TRUE
  ELSE LET m == Head1(t) IN
       \/ m.k = "copy" /\ heap[m.o].kind = "leaf"
       \/ m.k = "apart" /\ heap[m.o].kids = <<>> /\ heap[m.o].vals # <<>>
       \/ m.k = "read"
Over(t) == todo[t] = <<>> /\ left[t] = 0

Turn(t) ==
  /\ Fine \/ holder = t
  /\ cnt' = IF Fine THEN 0 ELSE IF IsPoint(t) THEN cnt + 1 ELSE cnt
  /\ UNCHANGED <<holder, moves>>
  /\ (todo[t] = <<>> /\ Calls(t)) \/ Micro(t)
(* Another thread's turn. *)
Pass ==
  /\ ~Fine /\ IsPoint(holder)
  /\ cnt > 0
  /\ \E u \in Threads \ {holder} :
       /\ ~Over(u) /\ holder' = u
       /\ moves' = IF Over(holder) THEN moves ELSE moves + 1
       /\ moves' <= Switches
       /\ cnt' = 0
       /\ path' = path \o "|" \o ToString(holder) \o " t" \o ToString(cnt)
  /\ UNCHANGED <<heap, hand, view, todo, left>>

Next == Pass \/ \E t \in Threads : Turn(t)
Spec == Init /\ [][Next]_vars
(* For the exploration of all steps: how a state was reached does not matter. *)
Seen == <<heap, hand, view, todo, left>>
-------------------------------------------------------------------------------
(* Every vector holds what its own thread did to it, whatever the others did.   *)
Holds(o) == [i \in 1..Len(heap[o].kids) |-> heap[heap[o].kids[i]].vals]
Mid(t, s) == \E i \in 1..Len(todo[t]) : todo[t][i].s = s \/ todo[t][i].s = "K"
Isolated ==
  /\ \A t \in Threads : \A s \in Slots :
       (todo[t] = <<>> /\ hand[t][s] # 0) => Holds(hand[t][s]) = view[t][s]
  /\ Holds(K) = Blank

(* Counts are exact: handles, children, and what calls have in hand.            *)
InHand(o) ==
  LET Of(t) == Cardinality({i \in 1..Len(todo[t]) :
                  \/ todo[t][i].k = "dec" /\ todo[t][i].o = o
                  \/ todo[t][i].k \in {"copy", "swap"} /\ todo[t][i].n = o})
      RECURSIVE Sum(_)
      Sum(T) == IF T = {} THEN 0 ELSE LET t == CHOOSE t \in T : TRUE IN Of(t) + Sum(T \ {t})
  IN  Sum(Threads)
Live == {o \in Obj : heap[o].kind # "free"}
Edges == UNION {{<<p, i>> : i \in 1..Len(heap[p].kids)} : p \in Live}
InKids(o, edges) == Cardinality({e \in edges : heap[e[1]].kids[e[2]] = o})
InHands(o) == Cardinality({<<t, s>> \in Threads \X Slots : hand[t][s] = o})
Counted ==
  \E edges \in {Edges} : \A o \in Live :
    heap[o].rc = InHand(o) + InKids(o, edges) + InHands(o) + (IF o = K THEN 1 ELSE 0)

(* Nothing is used after it was taken apart, nothing taken apart twice, nothing *)
(* is forgotten.                                                                *)
Taking(t) == {todo[t][i].o : i \in {j \in 1..Len(todo[t]) : todo[t][j].k = "apart"}}
Reach ==
  LET roots == {K} \cup ({hand[t][s] : t \in Threads, s \in Slots} \ {0})
  IN  roots \cup UNION {{heap[r].kids[i] : i \in 1..Len(heap[r].kids)} : r \in roots}
Safe ==
  /\ \A o \in Reach : heap[o].kind # "free" /\ heap[o].rc > 0
  /\ \A t, u \in Threads : t # u => Taking(t) \cap Taking(u) = {}
Kept == (\A t \in Threads : todo[t] = <<>>) => \A o \in Obj : heap[o].kind = "free" \/ o \in Reach

(* Nothing is written that anyone else can see, or is copying.                  *)
Reading(t) == {todo[t][i].o : i \in {j \in 1..Len(todo[t]) : todo[t][j].k = "copy"}}
              \cup {heap[hand[t][todo[t][i].s]].kids[todo[t][i].at] : i \in {j \in 1..Len(todo[t]) : j = 1 /\ todo[t][j].k = "read"}}
Exclusive ==
  \A o \in Live : heap[o].by # 0 =>
    /\ heap[o].rc = 1
    /\ InKids(o, Edges) = 1
    /\ \A u \in Threads \ {heap[o].by} : o \notin Reading(u)

Shown == (Emit /\ \A t \in Threads : Over(t)) =>
  PrintT("SCHED " \o path \o "|" \o ToString(holder) \o " t" \o ToString(cnt))
================================================================================

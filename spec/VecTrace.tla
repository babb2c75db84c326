------------------------------- MODULE VecTrace -------------------------------
(* Is a recorded run of the library a behaviour of VecApi?  Every line of the *)
(* trace is one public call, with its result, whether it panicked, which      *)
(* vectors' contents it changed, which elements it created, cloned or         *)
(* dropped.  A line no action allows leaves the trace unfinished; a line      *)
(* whose effects differ from the action's sets bad.                           *)
EXTENDS VecApi, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
(* Check the ownership ledger of every element after every call, not only of  *)
(* the elements the call touched.                                             *)

VARIABLES l,         \* the next line
          seen,      \* contents when last observed
          seenAlive,
          live,      \* the elements alive, and how many instances of each
          cfg,       \* the world: width, whether elements are tracked, leaks allowed
          hts,       \* the heights of the trees, where the trace tells them
          grown,     \* the vectors nothing was ever cut off, nor any of their parts
          bad        \* why the trace is wrong
tvars == <<api, l, seen, seenAlive, live, cfg, hts, grown, bad>>

TraceInit ==
  /\ ApiInit
  /\ l = 1 /\ seen = <<>> /\ seenAlive = {} /\ live = <<>>
  /\ cfg = [w |-> 64, tracked |-> FALSE, leaky |-> FALSE, heights |-> FALSE]
  /\ hts = <<>> /\ grown = {}
  /\ bad = ""

Entries(e) == {e.obs[i] : i \in 1..Len(e.obs)}
(* What the trace says a vector holds after the call: what it showed last, if  *)
(* not shown again.  Never shown at all is no contents a vector can have.      *)
Never == << <<0, 0>> >>
Shown(e, h) ==
  LET es == {x \in Entries(e) : x[1] = h}
  IN  IF es # {} THEN (CHOOSE x \in es : TRUE)[3] ELSE IF h \in DOMAIN seen THEN seen[h] ELSE Never

-------------------------------------------------------------------------------
Stutter == UNCHANGED <<vec, alive, own, ses>> /\ Gives(<<>>)

SessionCall(e) ==
  LET a == e.a
      cmd == a  \* of a call that panicked: the command as the caller gave it
  IN
  CASE e.op = "iter_open" -> IterOpen(a[1], a[2])
    [] e.op = "it_next" -> TakeFront(0, <<>>)
    [] e.op = "it_back" -> TakeBack(0, <<>>)
    [] e.op = "it_next_set" -> TakeFront(0, a)
    [] e.op = "it_back_set" -> TakeBack(0, a)
    [] e.op = "it_nth" -> TakeFront(a[1], <<>>)
    [] e.op = "it_nth_back" -> TakeBack(a[1], <<>>)
    [] e.op = "it_len" -> IterLen
    [] e.op = "it_fork" -> IterFork
    [] e.op = "it_count" -> IterCount
    [] e.op = "it_last" -> IterLast
    [] e.op \in {"it_rest", "it_rest_rev", "it_fold"} -> TakeRest(<<>>)
    [] e.op = "it_rest_set" -> TakeRest(a)
    [] e.op = "iter_close" -> IterClose
    [] e.op = "fc_open" -> FociOpen(a[1], "fc")
    [] e.op = "fc_new" -> FocusNew(a[1], 0, RLen(vec[ses.h]))
    [] e.op = "fc_narrowed" -> FocusNew(a[1], a[2], a[3])
    [] e.op = "fc_get" -> FocusGet("fc", a[1], a[2])
    [] e.op = "fc_len" -> FocusLen("fc", a[1])
    [] e.op = "fc_all" -> FocusAll(a[1])
    [] e.op = "fc_narrow" -> FocusNarrow(a[1], SubSeq(a, 2, 5))
    [] e.op = "fc_split" -> FocusSplit(a[1], a[2], a[3], a[4])
    [] e.op = "fc_clone" -> FocusClone(a[1], a[2])
    [] e.op = "fc_panic" ->
         (CASE cmd[1] = 7 -> FocusIndex("fc", cmd[2], cmd[3])
            [] cmd[1] = 4 -> FocusSplit(cmd[2], cmd[3], cmd[4], cmd[5])
            [] cmd[1] = 3 -> FocusNarrow(cmd[2], SubSeq(cmd, 3, 6))
            [] OTHER -> Stutter)
    [] e.op = "fc_close" -> FociClose("fc")
    [] e.op = "fm_open" -> FociOpen(a[1], "fm")
    [] e.op = "fm_get" -> FocusGet("fm", a[1], a[2])
    [] e.op = "fm_len" -> FocusLen("fm", a[1])
    [] e.op = "fm_set" -> FmSet(a[1], a[2], a[3])
    [] e.op = "fm_split" -> FmSplit(a[1], a[2], a[3], a[4])
    [] e.op = "fm_join" -> FmJoin(a[1], a[3], a[4])
    [] e.op = "fm_swap" -> FmSwap(a[1], a[2], a[3], a[4])
    [] e.op = "fm_fill" -> FmFill(a[1], a[2])
    [] e.op = "fm_panic" ->
         (CASE cmd[1] = 7 -> FocusIndex("fm", cmd[2], cmd[3])
            [] cmd[1] = 4 -> FmSplit(cmd[2], cmd[3], cmd[4], cmd[5])
            [] OTHER -> Stutter)
    [] e.op = "fm_close" -> FociClose("fm")
    [] e.op = "par_open" -> FociOpen(a[1], "par")
    [] e.op = "par_fill" -> ParFill(a[1])
    [] e.op = "par_close" -> FociClose("par")
    [] OTHER -> Stutter   \* a panic in a session: never allowed, see Why

SortKey(a, mode) == IF mode < 2 THEN <<0, 1>> ELSE a

Call(e) ==
  LET a == e.a
      h == a[1]
  IN
  IF ses.k # "none" THEN SessionCall(e) ELSE
  CASE e.op \in {"new", "default"} -> Make(h, <<>>)
    [] e.op = "single" -> Make(h, ROne(a[2]))
    [] e.op \in {"from_iter", "macro"} -> Make(h, RRun(a[2], a[3]))
    [] e.op = "const" -> MakeConst(h, RConst(a[2], a[3]))
    [] e.op = "clone" -> Clone(h, a[2])
    [] e.op = "clone_from" -> CloneFrom(h, a[2])
    [] e.op = "drop" -> Drop(h)
    [] e.op = "push_back" -> PushBack(h, a[2], 1)
    [] e.op = "push_front" -> PushFront(h, a[2], 1)
    [] e.op = "push_back_n" -> PushBack(h, a[2], a[3])
    [] e.op = "push_front_n" -> PushFront(h, a[2], a[3])
    [] e.op = "pop_back" -> PopBack(h)
    [] e.op = "pop_front" -> PopFront(h)
    [] e.op = "pop_back_n" -> PopBackN(h, a[2])
    [] e.op = "pop_front_n" -> PopFrontN(h, a[2])
    [] e.op = "joins" -> JoinMany(h, a[2], a[3] * a[4], a[5] % 2)
    [] e.op = "append" -> AppendVec(h, a[2])
    [] e.op = "prepend" -> PrependVec(h, a[2])
    [] e.op = "append_clone" -> AppendClone(h, a[2])
    [] e.op = "prepend_clone" -> PrependClone(h, a[2])
    [] e.op = "split_off" -> SplitOff(h, a[2], a[3])
    [] e.op = "slice_from_start" -> SliceFromStart(h, a[2])
    [] e.op = "slice_to_end" -> SliceToEnd(h, a[2])
    [] e.op = "extract" -> Extract(h, Span(SubSeq(a, 2, 5), L(h)), a[6])
    [] e.op = "insert" -> Insert(h, a[2], a[3])
    [] e.op = "remove" -> RemoveAt0(h, a[2])
    [] e.op = "get" -> Get(h, a[2])
    [] e.op = "index" -> IndexAt(h, a[2])
    [] e.op = "front" -> FrontOf(h)
    [] e.op = "back" -> BackOf(h)
    [] e.op = "len" -> LenOf(h)
    [] e.op = "all" -> ReadAll(h)
    [] e.op = "set" -> SetAt(h, a[2], a[3], a[4])
    [] e.op = "reverse" -> ReverseRange(h, <<0, L(h)>>)
    [] e.op = "reverse_range" -> ReverseRange(h, Span(SubSeq(a, 2, 5), L(h)))
    [] e.op = "sort" ->
         LET sp == IF a[2] \in {0, 2} THEN <<0, L(h)>> ELSE Span(SubSeq(a, 5, 8), L(h))
             km == SortKey(<<a[3], a[4]>>, a[2])
         IN  Sort(h, sp, km[1], km[2], Shown(e, h))
    [] e.op = "dual" ->
         LET sp == IF a[3] \in {0, 2} THEN <<0, L(h)>> ELSE Span(SubSeq(a, 6, 9), L(h))
             km == SortKey(<<a[4], a[5]>>, a[3])
         IN  DualSort(h, a[2], sp, km[1], km[2], Shown(e, h), Shown(e, a[2]))
    [] e.op = "cmp" -> Compare(h, a[2])
    [] e.op = "pcmp" -> LooseCompare(h, a[2], a[3], a[4])
    [] e.op = "erange" ->
         Search(h, a[2], a[3], a[4], a[5], SubSeq(a, 6, 9), a[10], a[11], a[12], a[13], a[14])
    [] e.op = "bomb_sort" ->
         LET sp == IF a[2] \in {0, 2} THEN <<0, L(h)>> ELSE Span(SubSeq(a, 5, 8), L(h))
             km == SortKey(<<a[3], a[4]>>, a[2])
         IN  IF e.p = 1 \/ a[3] > 5 THEN BombSort(h, sp, Shown(e, h))
             ELSE Sort(h, sp, km[1], km[2], Shown(e, h))
    [] e.op = "bomb_dual" ->
         LET sp == Span(SubSeq(a, 6, 9), L(h))
         IN  IF e.p = 1 \/ a[4] > 5 THEN BombDual(h, a[2], sp, Shown(e, h), Shown(e, a[2]))
             ELSE DualSort(h, a[2], sp, a[4], a[5], Shown(e, h), Shown(e, a[2]))
    [] e.op = "bomb_from_iter" ->
         IF e.p = 1 /\ a[4] < a[3] THEN Lost({}) ELSE Make(h, RRun(a[2], a[3]))
    [] e.op = "bomb_clone" ->
         IF e.p = 1 THEN Lost(IF a[2] \in {1, 2} THEN {h, a[3]} \cap alive ELSE {h})
         ELSE (CASE a[2] = 1 -> AppendVec(h, a[3])
                 [] a[2] = 2 -> SplitOff(h, L(h) \div 2, a[3])
                 [] a[2] = 3 -> PushBack(h, a[5], 1)
                 [] a[2] = 4 -> Becomes(h, RDrop(vec[h], 1), <<>>)
                 [] OTHER -> Becomes(h, vec[h], <<>>))
    [] e.op \in {"conc_open", "conc_close"} -> Stutter
    [] e.op = "end" -> alive = {} /\ Reads(<<0>>)   \* allocations the library has not released
    [] e.op \in {"iter_open", "fc_open", "fm_open", "par_open"} -> SessionCall(e)

-------------------------------------------------------------------------------
(* Element clones a call may make.  Storage that is not shared is never        *)
(* copied; reads and clones of a vector never copy an element.  Of shared      *)
(* storage a call copies no more than it has to change: for the ends, single   *)
(* elements and cuts a few leaves, for joins the seam, a few nodes of up to    *)
(* W leaves; never a share of the whole vector.                                *)
W == cfg.w
ReadOnly == {"clone", "drop", "new", "default", "single", "from_iter", "macro", "get", "index",
             "front", "back", "len", "all", "cmp", "pcmp", "erange", "iter_open", "fc_open",
             "fc_new", "fc_narrowed", "fc_get", "fc_len", "fc_all", "fc_narrow", "fc_split",
             "fc_clone", "fc_close", "fc_panic", "bomb_from_iter"}
AFewLeaves == {"push_back", "push_front", "pop_back", "pop_front", "push_back_n", "push_front_n",
               "set", "split_off", "slice_from_start", "slice_to_end"}
Seam == 4 * W * W + 16 * W
OwnPair(e) == e.a[1] \in own /\ e.a[2] \in own
CloneBudget(e) ==
  LET a == e.a
      h == a[1]
  IN
  IF e.op \in {"reset", "end", "bomb_clone", "conc_open", "conc_close"} THEN -1
  ELSE IF ses.k # "none"
  THEN IF e.op \in ReadOnly \/ ses.own \/ (ses.k = "it" /\ ses.kind = 0) THEN 0
       ELSE RLen(ses.pre) + RLen(ses.mid) + RLen(ses.post) + RLen(vec[ses.h]) + W
  ELSE IF e.op \in ReadOnly THEN 0
  ELSE IF e.op = "const" THEN 4 * a[3] + 2 * W
  ELSE IF e.op = "clone_from" THEN 0
  ELSE IF e.op \in {"append", "prepend"} THEN IF OwnPair(e) THEN 0 ELSE Seam
  ELSE IF e.op \in {"dual", "bomb_dual"} THEN IF OwnPair(e) THEN 0 ELSE L(h) + L(a[2]) + 2 * W
  ELSE IF e.op \in {"append_clone", "prepend_clone"} THEN Seam
  ELSE IF h \in own THEN 0
  ELSE IF e.op \in AFewLeaves THEN 6 * W
  ELSE IF e.op \in {"insert", "remove", "extract"} THEN Seam
  ELSE L(h) + 2 * W

(* What is alive, as runs <<x, n, k>> in order: x and the n - 1 after it, k times. *)
RECURSIVE Within(_, _, _)
Within(x, i, j) ==   \* the last run from i to j that starts at x or before
  IF i = j THEN i
  ELSE LET m == (i + j + 1) \div 2 IN IF live'[m][1] <= x THEN Within(x, m, j) ELSE Within(x, i, m - 1)
Alive(x) ==
  IF live' = <<>> THEN 0
  ELSE LET r == live'[Within(x, 1, Len(live'))] IN IF r[1] <= x /\ x < r[1] + r[2] THEN r[3] ELSE 0

(* Where counts can change: ends of the runs of what is alive, and of the vectors. *)
Edges ==
  LET of(r) == {r[i][1] : i \in 1..Len(r)} \cup {r[i][1] + r[i][2] : i \in 1..Len(r)}
  IN  of(live') \cup UNION {of(vec'[h]) : h \in alive'}

(* A vector of many runs is looked at as a set, if nothing is in it twice.       *)
SetOf(r) == IF Len(r) > 30 /\ RLen(r) < 20000 THEN RIds(r) ELSE {}
LedgerOK(e) ==
  \/ ~cfg.tracked
  \/ e.o = 0
  \/ e.ch = 0 /\ alive' = seenAlive /\ \A h \in alive' : vec'[h] = seen[h]
  \/ \E sets \in {TLCEval([h \in alive' |-> SetOf(vec'[h])])} :
     \E once \in {TLCEval([h \in alive' |-> sets[h] # {} /\ Cardinality(sets[h]) = RLen(vec'[h])])} :
       LET in(h, x) == IF once[h] THEN (IF x \in sets[h] THEN 1 ELSE 0) ELSE ROcc(vec'[h], x)
           chk(x) == LET n == Alive(x)
                         o == FoldSet(LAMBDA h, acc : acc + in(h, x), 0, alive')
                     IN  /\ n >= 0
                         /\ (o > 0 => n >= 1)
                         /\ (cfg'.leaky \/ n <= o)
       IN  /\ \A x \in Edges : chk(x)
           /\ (alive' = {} /\ ~cfg'.leaky) => e.tot = 0

ResultOK(e) ==
  IF e.op = "end" THEN e.r = out'.r \/ cfg.leaky
  ELSE IF e.op = "cmp"
  THEN SubSeq(e.r, 1, 4) = out'.r /\ (out'.r[1] = 1 => e.r[5] = 1)
  ELSE e.r = out'.r

-------------------------------------------------------------------------------
(* How tall trees are.  A call makes a tree at most a level taller than the    *)
(* tallest it is made of, and only if it joins or adds; one that only ever     *)
(* grew is no taller than a logarithm of its length: a level more, and it has  *)
(* room for, and holds, twice as much.                                        *)
Makes == {"new", "default", "single", "from_iter", "macro", "const", "bomb_from_iter"}
JoinsTwo == {"append", "prepend", "append_clone", "prepend_clone"}
Cuts == {"pop_back", "pop_front", "pop_back_n", "pop_front_n", "slice_from_start", "slice_to_end", "split_off",
         "insert", "remove", "extract"}
GrownBy(e) ==
  LET a == e.a IN
  IF e.op \in Makes THEN grown \cup {a[1]}
  ELSE IF e.op = "clone" THEN IF a[1] \in grown THEN grown \cup {a[2]} ELSE grown \ {a[2]}
  ELSE IF e.op = "clone_from" THEN IF a[2] \in grown THEN grown \cup {a[1]} ELSE grown \ {a[1]}
  ELSE IF e.op \in JoinsTwo THEN IF a[2] \in grown THEN grown ELSE grown \ {a[1]}
  ELSE IF e.op \in Cuts
  THEN grown \ ({a[1]} \cup (IF e.op = "split_off" THEN {a[3]} ELSE IF e.op = "extract" THEN {a[6]} ELSE {}))
  ELSE IF e.op \in {"conc_close", "bomb_clone"} THEN {}
  ELSE grown

Tall(e, h) == LET es == {x \in {e.ht[i] : i \in 1..Len(e.ht)} : x[1] = h}
              IN  IF es # {} THEN (CHOOSE x \in es : TRUE)[2] ELSE IF h \in DOMAIN hts THEN hts[h] ELSE 0
Was(h) == IF h \in DOMAIN hts THEN hts[h] ELSE 0
Free == Makes \cup {"conc_close", "bomb_clone"}
(* The tallest tree of n elements.                                             *)
RECURSIVE Levels(_, _)
Levels(n, k) == IF 2 * n < W * 2^k THEN k ELSE Levels(n, k + 1)
MayReach(e) ==
  LET a == e.a IN
  IF e.op \in JoinsTwo THEN Greater(Was(a[1]), Was(a[2])) + 1
  ELSE IF e.op = "clone_from" THEN Was(a[2])
  ELSE IF e.op = "joins" THEN Was(a[1]) + 1 + Levels(a[3] * a[4], 0)
  ELSE IF e.op \in {"push_back_n", "push_front_n"} THEN Was(a[1]) + 1 + Levels(a[3], 0)
  ELSE Was(a[1]) + (IF e.op \in {"push_back", "push_front", "insert", "remove", "extract"} THEN 1 ELSE 0)
HeightsOK(e) ==
  \A i \in 1..Len(e.ht) :
    LET h == e.ht[i][1]  k == e.ht[i][2]
    IN  /\ e.op \in Free \/ k <= MayReach(e)
        /\ (h \in grown' /\ k > 0) => k <= Levels(RLen(vec'[h]), 0)

Touched(e, h) == h = e.a[1] \/ h \notin alive \/ vec[h] # vec'[h]

Why(e) ==
  IF e.f = 1 THEN "ownership: a dead element was touched or dropped again"
  ELSE IF e.op = "crash" THEN "the process died"
  ELSE IF e.p = 1 /\ out'.p = "no" THEN "panic: the call panicked"
  ELSE IF e.op = "iter_panic" \/ e.op = "par_panic" THEN "panic: the call panicked"
  ELSE IF e.p = 0 /\ out'.p = "yes" THEN "panic: the call should have panicked"
  ELSE IF e.op = "end" /\ ~ResultOK(e) THEN "memory: not all of it was released"
  ELSE IF e.p = 0 /\ out'.p = "no" /\ ~ResultOK(e) THEN "result: not what the call gives back"
  ELSE IF e.o = 0 THEN IF CloneBudget(e) >= 0 /\ e.c > CloneBudget(e)
                       THEN "sharing: elements were copied" ELSE ""
  \* read by index it differs from what it holds, which an iterator does see
  ELSE IF \E x \in Entries(e) : Len(x) = 4 /\ x[1] \in alive' /\ x[4] = vec'[x[1]]
  THEN "access: an index leads to another element"
  ELSE IF \E x \in Entries(e) : x[2] = -1 THEN "contents: reading a vector panicked"
  ELSE IF \E x \in Entries(e) : x[2] >= 0 /\ x[2] # RLen(x[3]) THEN "contents: length and elements disagree"
  ELSE IF alive' # ((seenAlive \union {x[1] : x \in {y \in Entries(e) : y[2] >= 0}})
                    \ {x[1] : x \in {y \in Entries(e) : y[2] = -2}})
  THEN "contents: a vector appeared or vanished"
  ELSE IF \E h \in alive' : ~Touched(e, h) /\ Shown(e, h) # vec'[h]
  THEN "isolation: another vector changed"
  ELSE IF \E h \in alive' : Shown(e, h) # vec'[h] THEN "contents: not what the call leaves"
  ELSE IF ~LedgerOK(e) THEN "ownership: elements leaked, duplicated or dropped early"
  ELSE IF CloneBudget(e) >= 0 /\ e.c > CloneBudget(e) THEN "sharing: elements were copied"
  ELSE IF cfg.heights /\ ~HeightsOK(e) THEN "height: the tree is too tall"
  ELSE ""

Reset(e) ==
  /\ vec' = <<>> /\ alive' = {} /\ own' = {} /\ ses' = NoSession
  /\ out' = [r |-> <<>>, p |-> "no"]
  /\ seen' = <<>> /\ seenAlive' = {} /\ live' = <<>>
  /\ cfg' = [w |-> e.a[2], tracked |-> e.a[3] = 1, leaky |-> FALSE, heights |-> e.a[4] = 1]
  /\ hts' = <<>> /\ grown' = {}
  /\ bad' = ""

TraceNext ==
  /\ l <= Len(Trace)
  /\ bad = ""
  /\ l' = l + 1
  /\ LET e == Trace[l]
     IN  IF e.op = "reset" THEN Reset(e)
         ELSE /\ IF e.op = "crash" THEN Stutter ELSE Call(e)
              /\ cfg' = [cfg EXCEPT !.leaky = @ \/ (e.op = "bomb_clone" /\ e.p = 1)]
              /\ grown' = IF cfg.heights /\ e.op # "crash" THEN GrownBy(e) ELSE grown
              /\ hts' = IF cfg.heights /\ e.o = 1 THEN [h \in alive' |-> Tall(e, h)] ELSE hts
              /\ live' = IF e.ch = 1 THEN e.live ELSE live
              /\ bad' = Why(e)
              /\ IF e.o = 1
                 THEN /\ seen' = [h \in alive' |-> Shown(e, h)]
                      /\ seenAlive' = alive'
                 ELSE UNCHANGED <<seen, seenAlive>>

TraceSpec == TraceInit /\ [][TraceNext]_tvars

NoBad == bad = "" \/ PrintT(<<"BAD", l - 1, bad>>) = FALSE
Types == TypeOK
Stopped == PrintT(<<"READ", TLCGet("stats").diameter - 1, Len(Trace)>>)
TraceAccepted == Stopped /\ TLCGet("stats").diameter - 1 = Len(Trace)
===============================================================================

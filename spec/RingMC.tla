-------------------------------- MODULE RingMC --------------------------------
(* Two buffers beside one another through every sequence of pushes, pops and   *)
(* decants: every pair of states (front, length) is reached.  At each of them  *)
(* everything that is done to a buffer does what its sequence says, and every  *)
(* element is in exactly one slot, never read where there is none.  Every pair *)
(* is printed with pushes and pops that lead to it, for the harness.           *)
EXTENDS Ring, TLC

CONSTANT Emit

VARIABLES a, b, qa, qb, pa, pb
vars == <<a, b, qa, qb, pa, pb>>
Where == <<a.front, a.len, b.front, b.len>>

Init == a = Empty /\ b = Empty /\ qa = <<>> /\ qb = <<>> /\ pa = "from 0" /\ pb = "from 0"

Fresh == CHOOSE x \in 1..(2 * W + 1) : x \notin {qa[i] : i \in DOMAIN qa} \cup {qb[i] : i \in DOMAIN qb}
Queue(q, s, x) == IF s = "F" THEN <<x>> \o q ELSE Append(q, x)
Cut(q, s) == IF s = "F" THEN Tail(q) ELSE SubSeq(q, 1, Len(q) - 1)

(* Breadth first: the paths printed are shortest. *)
Next ==
  \E s \in {"F", "B"} :
    \/ ~Full(a) /\ a' = Push(a, s, Fresh) /\ qa' = Queue(qa, s, Fresh) /\ pa' = pa \o ";P" \o s /\ UNCHANGED <<b, qb, pb>>
    \/ ~Full(b) /\ b' = Push(b, s, Fresh) /\ qb' = Queue(qb, s, Fresh) /\ pb' = pb \o ";P" \o s /\ UNCHANGED <<a, qa, pa>>
    \/ a.len > 0 /\ a' = Pop(a, s)[2] /\ qa' = Cut(qa, s) /\ pa' = pa \o ";Q" \o s /\ UNCHANGED <<b, qb, pb>>
    \/ b.len > 0 /\ b' = Pop(b, s)[2] /\ qb' = Cut(qb, s) /\ pb' = pb \o ";Q" \o s /\ UNCHANGED <<a, qa, pa>>

Spec == Init /\ [][Next]_vars

Elems(r) == {r.data[s] : s \in Slots} \ {Hole}
Held(r) == {s \in Slots : r.data[s] # Hole}

(* The buffer is the queue, and holds nothing else. *)
Good(r, q) ==
  /\ Seq_(r) = q
  /\ Held(r) = Live(r)
  /\ Cardinality(Elems(r)) = r.len

Queues == Good(a, qa) /\ Good(b, qb) /\ Elems(a) \cap Elems(b) = {}

(* Popping returns the end. *)
Popped ==
  a.len > 0 => /\ Pop(a, "F")[1] = Head(qa)
               /\ Pop(a, "B")[1] = qa[Len(qa)]

(* What is cloned or dropped is what there is: no slot read that holds nothing, none forgotten. *)
Copied ==
  /\ Touched(a) = Live(a)
  /\ Good(Clone(a), [i \in 1..Len(qa) |-> -qa[i]])

(* Moving between buffers keeps the order across the seam, and every element in one place. *)
Decanted ==
  \A s \in {"F", "B"}, k \in 0..(W + 1) :
    LET m == Decant(a, b, s, k)
        x == m[1]
        y == m[2]
        n == Len(qa) - x.len
    IN  \* the buffers as neighbours, b where the elements go
        /\ (IF s = "F" THEN Seq_(y) \o Seq_(x) ELSE Seq_(x) \o Seq_(y))
             = (IF s = "F" THEN qb \o qa ELSE qa \o qb)
        /\ Good(x, Seq_(x)) /\ Good(y, Seq_(y))
        /\ Elems(x) \cap Elems(y) = {}
        /\ n <= k

(* Two positions are two places. *)
Pairs ==
  \A i, j \in 0..(a.len - 1) :
    i # j => LET p == Pair(a, i, j)
             IN  p.ok /\ a.data[p.first] = qa[i + 1] /\ a.data[p.second] = qa[j + 1]

(* The views of the parts of a leaf, split anywhere and once more, are apart and cover it. *)
Views ==
  \A k \in 0..a.len :
    LET v == ViewSplit(View(a), k)
    IN  /\ ViewSlots(v[1]) \cap ViewSlots(v[2]) = {}
        /\ ViewSlots(v[1]) \cup ViewSlots(v[2]) = Live(a)
        /\ \A i \in 0..(k - 1) : a.data[ViewSlot(v[1], i)] = qa[i + 1]
        /\ \A i \in 0..(a.len - k - 1) : a.data[ViewSlot(v[2], i)] = qa[k + i + 1]
        /\ \A j \in 0..(a.len - k) :
             LET u == ViewSplit(v[2], j)
             IN  /\ ViewSlots(u[1]) \cap ViewSlots(u[2]) = {}
                 /\ ViewSlots(u[1]) \cup ViewSlots(u[2]) = ViewSlots(v[2])
                 /\ \A i \in 0..(j - 1) : a.data[ViewSlot(u[1], i)] = qa[k + i + 1]

Shown == Emit => PrintT("RING " \o pa \o "|" \o pb)
===============================================================================

------------------------------- MODULE RopesMC -------------------------------
(* Every rope operator, against the same operation on plain sequences, for   *)
(* all sequences up to a length over a few identities.                        *)
EXTENDS Ropes
CONSTANTS MaxLen, Ids

VARIABLES s, t
Seqs == UNION {[1..n -> Ids] : n \in 0..MaxLen}
Init == s \in Seqs /\ t \in Seqs
Next == FALSE /\ UNCHANGED <<s, t>>
Spec == Init /\ [][Next]_<<s, t>>

Lex(a, b) == \* -1, 0, 1
  IF a = b THEN 0
  ELSE IF \E n \in 0..Len(a) : n < Len(b) /\ SubSeq(a, 1, n) = SubSeq(b, 1, n)
                              /\ (n = Len(a) \/ a[n+1] < b[n+1])
  THEN -1 ELSE 1

r == ToRope(s)
q == ToRope(t)

Unary ==
  /\ IsRope(r) /\ Expand(r) = s /\ RLen(r) = Len(s)
  /\ \A n \in 0..(Len(s) + 1) :
       /\ Expand(RTake(r, n)) = SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))
       /\ Expand(RDrop(r, n)) = SubSeq(s, n + 1, Len(s))
       /\ IsRope(RTake(r, n)) /\ IsRope(RDrop(r, n))
  /\ \A i \in 0..(Len(s) - 1) :
       /\ RAt(r, i) = s[i + 1]
       /\ \A x \in Ids : /\ Expand(RSet(r, i, x)) = [s EXCEPT ![i + 1] = x]
                         /\ IsRope(RSet(r, i, x))
       /\ Expand(RRemove(r, i)) = RemoveAt(s, i + 1)
       /\ IsRope(RRemove(r, i))
  /\ \A i \in 0..Len(s), x \in Ids :
       /\ Expand(RInsert(r, i, x)) = InsertAt(s, i + 1, x)
       /\ IsRope(RInsert(r, i, x))
  /\ \A a \in 0..Len(s) : \A b \in a..Len(s) : Expand(RSlice(r, a, b)) = SubSeq(s, a + 1, b)
  /\ Expand(RRev(r)) = Reverse(s) /\ IsRope(RRev(r))
  /\ \A x \in Ids : ROcc(r, x) = Cardinality({i \in 1..Len(s) : s[i] = x})
  /\ RIds(r) = ToSet(s)
  /\ \A x \in Ids, n \in 0..3 : /\ Expand(RRun(x, n)) = [i \in 1..n |-> x + i - 1]
                                /\ Expand(RConst(x, n)) = [i \in 1..n |-> x]

Binary ==
  /\ Expand(RCat(r, q)) = s \o t /\ IsRope(RCat(r, q))
  /\ RCmp(r, q) = Lex(s, t)
  /\ (r = q) <=> (s = t)
  /\ SameBag(r, q) <=> (\A x \in Ids : ROcc(r, x) = ROcc(q, x))
==============================================================================

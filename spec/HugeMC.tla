-------------------------------- MODULE HugeMC --------------------------------
(* What Huge does on runs and digits is what is meant on sequences and        *)
(* numbers: every pair of short sequences, every position, to a small base.   *)
EXTENDS Huge, FiniteSets, TLC

CONSTANTS Most, Vals

Value(a) == a[1] * B * B + a[2] * B + a[3]
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE [i \in 1..Value(s[1][2]) |-> s[1][1]] \o Flat(Tail(s))
Plain == UNION {[1..n -> Vals] : n \in 0..Most}
RECURSIVE Runs(_)
Runs(f) == IF f = <<>> THEN <<>> ELSE Cat(Rep(f[1], Num(1)), Runs(Tail(f)))

VARIABLES f, g
Init == f \in Plain /\ g \in Plain
Next == UNCHANGED <<f, g>>

Digits(a) == a[1] >= 0 /\ \A i \in 2..3 : a[i] \in 0..(B - 1)
Sound(s) == /\ \A i \in 1..Len(s) : s[i][2] # Zero /\ Digits(s[i][2])
            /\ \A i \in 1..(Len(s) - 1) : s[i][1] # s[i + 1][1]
Right ==
  LET s == Runs(f)  t == Runs(g)
  IN  /\ Sound(s) /\ Flat(s) = f
      /\ Value(HLen(s)) = Len(f)
      /\ Sound(Cat(s, t)) /\ Flat(Cat(s, t)) = f \o g
      /\ Sound(Backwards(s)) /\ Flat(Backwards(s)) = [i \in 1..Len(f) |-> f[Len(f) + 1 - i]]
      /\ Sound(Ordered(s)) /\ Flat(Ordered(s)) = SortSeq(f, LAMBDA x, y : x < y)
      /\ \A n \in 0..(Len(f) + 1) :
           LET k == IF n > Len(f) THEN Len(f) ELSE n IN
           /\ Flat(Take(s, Num(n))) = SubSeq(f, 1, k)
           /\ Flat(Drop(s, Num(n))) = SubSeq(f, k + 1, Len(f))
           /\ At(s, Num(n)) = (IF n < Len(f) THEN f[n + 1] ELSE Nothing)
           /\ \A x \in Vals : /\ Flat(Put(s, Num(n), x)) = (IF n < Len(f) THEN [f EXCEPT ![n + 1] = x] ELSE f)
                              /\ Sound(Put(s, Num(n), x))
      /\ \A x \in Vals : /\ Value(Count(s, x, FALSE)) = Cardinality({i \in 1..Len(f) : f[i] < x})
                       /\ Value(Count(s, x, TRUE)) = Cardinality({i \in 1..Len(f) : f[i] = x})
Numbers ==
  \A a, b \in 0..(B * B * B - 1) :
    /\ Value(Num(a)) = a /\ Digits(Num(a))
    /\ Lt(Num(a), Num(b)) <=> a < b
    /\ Value(Add(Num(a), Num(b))) = a + b /\ Digits(Add(Num(a), Num(b)))
    /\ b <= a => Sub(Num(a), Num(b)) = Num(a - b)
ASSUME Numbers
===============================================================================

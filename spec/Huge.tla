--------------------------------- MODULE Huge ---------------------------------
(* Vectors far longer than memory, or of elements that take none: sequences   *)
(* as runs of equal elements, <<element, how many>>, in numbers of three      *)
(* digits to the base B (TLC's own end at 2^31).                              *)
EXTENDS Integers, Sequences

CONSTANT B

Zero == <<0, 0, 0>>
Num(k) == <<(k \div B) \div B, (k \div B) % B, k % B>>
Lt(a, b) == \/ a[1] < b[1]
            \/ a[1] = b[1] /\ a[2] < b[2]
            \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
Le(a, b) == ~Lt(b, a)
Add(a, b) ==
  LET z == a[3] + b[3]
      y == a[2] + b[2] + z \div B
  IN  <<a[1] + b[1] + y \div B, y % B, z % B>>
(* For b <= a.  TLA+'s \div rounds down and its % is never negative.           *)
Sub(a, b) ==
  LET z == a[3] - b[3]
      y == a[2] - b[2] + z \div B
  IN  <<a[1] - b[1] + y \div B, y % B, z % B>>
Min(a, b) == IF Lt(a, b) THEN a ELSE b

RECURSIVE HLen(_)
HLen(s) == IF s = <<>> THEN Zero ELSE Add(s[1][2], HLen(Tail(s)))
RECURSIVE Take(_, _)
Take(s, n) ==
  IF s = <<>> \/ n = Zero THEN <<>>
  ELSE IF Le(s[1][2], n) THEN <<s[1]>> \o Take(Tail(s), Sub(n, s[1][2]))
  ELSE << <<s[1][1], n>> >>
RECURSIVE Drop(_, _)
Drop(s, n) ==
  IF s = <<>> \/ n = Zero THEN s
  ELSE IF Le(s[1][2], n) THEN Drop(Tail(s), Sub(n, s[1][2]))
  ELSE << <<s[1][1], Sub(s[1][2], n)>> >> \o Tail(s)
(* Neighbouring runs of the same element are one run.                         *)
Cat(s, t) ==
  IF s = <<>> THEN t
  ELSE IF t = <<>> THEN s
  ELSE IF s[Len(s)][1] = t[1][1]
  THEN SubSeq(s, 1, Len(s) - 1) \o << <<t[1][1], Add(s[Len(s)][2], t[1][2])>> >> \o Tail(t)
  ELSE s \o t
Rep(x, n) == IF n = Zero THEN <<>> ELSE << <<x, n>> >>
Put(s, i, x) == IF Lt(i, HLen(s)) THEN Cat(Cat(Take(s, i), Rep(x, Num(1))), Drop(Drop(s, i), Num(1))) ELSE s
Nothing == 999999
RECURSIVE At(_, _)
At(s, i) == IF s = <<>> THEN Nothing
            ELSE IF Lt(i, s[1][2]) THEN s[1][1] ELSE At(Tail(s), Sub(i, s[1][2]))
RECURSIVE Backwards(_)
Backwards(s) == IF s = <<>> THEN <<>> ELSE Cat(Backwards(Tail(s)), <<s[1]>>)
RECURSIVE Into(_, _), Ordered(_)
Into(x, s) == IF s = <<>> \/ x[1] <= s[1][1] THEN Cat(<<x>>, s) ELSE Cat(<<s[1]>>, Into(x, Tail(s)))
Ordered(s) == IF s = <<>> THEN <<>> ELSE Into(s[1], Ordered(Tail(s)))
(* How many elements are less than x (or equal to it).                        *)
RECURSIVE Count(_, _, _)
Count(s, x, eq) ==
  IF s = <<>> THEN Zero
  ELSE IF (eq /\ s[1][1] = x) \/ (~eq /\ s[1][1] < x) THEN Add(s[1][2], Count(Tail(s), x, eq)) ELSE Count(Tail(s), x, eq)
===============================================================================

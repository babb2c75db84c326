------------------------------- MODULE SearchMC -------------------------------
(* The binary searches of src/vector.rs, one probe a step: over a window of     *)
(* elements that compare less, then equal, then greater, each some number of    *)
(* times, with others before and after that must not be looked at.              *)
EXTENDS Integers, Sequences, TLC

CONSTANTS Most,   \* elements in the window
          Around, \* elements before it, after it
          Emit

VARIABLES given,     \* [pre, l, e, g, post, at]: at the index asked about, -1 to find one
          pc, start, end, es, ee, probe, ans
vars == <<given, pc, start, end, es, ee, probe, ans>>

\* x / 2 + y / 2 + (x % 2 + y % 2) / 2: the mean, rounded down, that cannot overflow
Mean(x, y) == x \div 2 + y \div 2 + (((x % 2) + (y % 2)) \div 2)
Low == given.pre
High == given.pre + given.l + given.e + given.g
Compare(i) == IF i < given.pre + given.l THEN "L" ELSE IF i < given.pre + given.l + given.e THEN "E" ELSE "G"

Init ==
  /\ \E l, e, g \in 0..Most, pre, post \in Around :
       /\ l + e + g <= Most
       /\ \E at \in {-1} \cup 0..(pre + l + e + g + post) :
            given = [pre |-> pre, l |-> l, e |-> e, g |-> g, post |-> post, at |-> at]
  /\ start = given.pre /\ end = given.pre + given.l + given.e + given.g
  /\ es = 0 /\ ee = 0 /\ probe = given.pre /\ ans = <<>>
  /\ pc = IF given.at >= 0 THEN "index" ELSE "find"

Done(a) == pc' = "done" /\ ans' = a /\ UNCHANGED <<start, end, es, ee>>
Look(i) == probe' = i
Rest == UNCHANGED given

Find ==
  /\ pc = "find" /\ Rest
  /\ IF start >= end THEN Done(<<"no", start>>) /\ UNCHANGED probe
     ELSE IF start + 1 = end
     THEN /\ Look(start)
          /\ Done(CASE Compare(start) = "L" -> <<"no", start + 1>>
                    [] Compare(start) = "G" -> <<"no", start>>
                    [] OTHER -> <<"yes", start, end>>)
     ELSE LET mid == Mean(start, end) IN
          /\ Look(mid)
          /\ CASE Compare(mid) = "L" -> start' = mid /\ UNCHANGED <<pc, end, es, ee, ans>>
               [] Compare(mid) = "G" -> end' = mid /\ UNCHANGED <<pc, start, es, ee, ans>>
               [] OTHER -> pc' = "first" /\ es' = mid /\ ee' = mid /\ UNCHANGED <<start, end, ans>>

Index ==
  /\ pc = "index" /\ Rest
  /\ IF given.at < start \/ given.at >= end THEN Done(<<"yes", 0, 0>>) /\ UNCHANGED probe
     ELSE /\ Look(given.at)
          /\ IF Compare(given.at) # "E" THEN Done(<<"yes", 0, 0>>)
             ELSE pc' = "first" /\ es' = given.at /\ ee' = given.at /\ UNCHANGED <<start, end, ans>>

First ==   \* start..es: the first of the equal ones
  /\ pc = "first" /\ Rest /\ UNCHANGED <<ee, end, ans>>
  /\ IF es = start THEN pc' = "last" /\ UNCHANGED <<start, es, probe>>
     ELSE IF start + 1 = es
     THEN /\ Look(start) /\ pc' = "last" /\ UNCHANGED start
          /\ es' = IF Compare(start) = "E" THEN start ELSE es
     ELSE LET mid == Mean(start, es) IN
          /\ Look(mid) /\ UNCHANGED pc
          /\ IF Compare(mid) = "E" THEN es' = mid /\ UNCHANGED start ELSE start' = mid /\ UNCHANGED es

Last ==    \* ee..end: the last
  /\ pc = "last" /\ Rest
  /\ IF ee + 1 = end THEN Done(<<"yes", es, ee + 1>>) /\ UNCHANGED probe
     ELSE LET mid == Mean(ee, end) IN
          /\ Look(mid) /\ UNCHANGED <<pc, start, es, ans>>
          /\ IF Compare(mid) = "E" THEN ee' = mid /\ UNCHANGED end ELSE end' = mid /\ UNCHANGED ee

Next == Find \/ Index \/ First \/ Last
Spec == Init /\ [][Next]_vars

InWindow == probe = Low \/ (Low <= probe /\ probe < High)
Answer ==
  pc = "done" =>
    ans = IF given.at >= 0
          THEN IF Low <= given.at /\ given.at < High /\ Compare(given.at) = "E" THEN <<"yes", Low + given.l, Low + given.l + given.e>>
               ELSE <<"yes", 0, 0>>
          ELSE IF given.e > 0 THEN <<"yes", Low + given.l, Low + given.l + given.e>> ELSE <<"no", Low + given.l>>
(* Each probe narrows something, so the search ends; and only so many probes.   *)
Measure(s, t, a, b, p) == (t - s) + (a - s) + (t - b) + (IF p \in {"find", "index"} THEN 1000 ELSE IF p = "first" THEN 500 ELSE IF p = "last" THEN 100 ELSE 0)
Ends == [][Measure(start', end', es', ee', pc') < Measure(start, end, es, ee, pc)]_vars

Shown == (Emit /\ pc = "find" /\ start = Low /\ end = High)
           => PrintT("SEARCH " \o ToString(given.pre) \o " " \o ToString(given.l) \o " " \o ToString(given.e) \o " "
                     \o ToString(given.g) \o " " \o ToString(given.post))
===============================================================================

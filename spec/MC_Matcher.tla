----------------------------- MODULE MC_Matcher -----------------------------
(* One superpixel.  Spec: any sequence of measurements (safety).  PlantSpec: a    *)
(* camera whose amplitude falls with the DAC; the run must complete (liveness).   *)
EXTENDS Matcher
CONSTANTS Starts, Dists, MaxIt, Targets
VARIABLES s, mask, target, n
vars == <<s, mask, target, n>>
Mk(st, m) == MatcherInit([aim |-> 0, nev |-> 1, start |-> <<st>>, mask |-> <<m>>])
Init == /\ mask \in BOOLEAN /\ target = 0 /\ n = 0
        /\ \E st \in Starts : s = Mk(st, mask)
Next == /\ n < MaxIt /\ n' = n + 1 /\ UNCHANGED <<mask, target>>
        /\ \E d \in Dists, dir \in {-1, 0, 1} : (d = 0 <=> dir = 0) /\ s' = MatchStep(s, <<d>>, <<dir>>)
Spec == Init /\ [][Next]_vars
Sp == s.sp[1]
Safe == Sp.dac \in 10..255 /\ Sp.stage \in 0..3
Masked == mask /\ n > 0 => Sp.dac = 255
SecondPass == s.gs >= 2 => Sp.stage >= 2
Completed == (s.gs = 1 \/ s.gs = 3) => Sp.stage = 3
\* how one measurement may change the state
Moves == [][LET a == s.sp[1]
                b == s'.sp[1]
                st == IF s.gs = 1 THEN 2 ELSE a.stage      \* stage while measuring
            IN /\ b.dac = a.dac \/ b.dac = a.prev \/ b.dac = 255
                  \/ (st < 3 /\ Abs(b.dac - a.dac) = Step(st))
               /\ (b.stage = st \/ b.stage = st + 1 \/ b.stage = 3)
               /\ (st = 3 => b.dac = a.dac)
               /\ (s.gs = 3 => s' = s)
               /\ s'.gs \in {s.gs, s.gs + 1, s.gs + 2} /\ (s.gs = 0 => s'.gs <= 1)]_vars
\* deterministic camera: amplitude - aim = target - 2 * dac
PInit == /\ mask = FALSE /\ n = 0 /\ target \in Targets
         /\ \E st \in Starts : s = Mk(st, mask)
PNext == /\ UNCHANGED <<mask, target, n>>
         /\ LET d == target - 2 * Sp.dac IN s' = MatchStep(s, <<Abs(d)>>, <<Sign(d)>>)
PSpec == PInit /\ [][PNext]_vars /\ WF_vars(PNext)
Terminates == <>(s.gs = 3)
\* having completed, the DAC is the best one or a neighbour (or out of range)
Good == s.gs = 3 => Abs(2 * Sp.dac - target) <= 2 \/ Sp.dac = 255
=============================================================================

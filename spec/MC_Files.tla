------------------------------ MODULE MC_Files ------------------------------
(* The natural order is a strict weak order; reading a configuration keeps the     *)
(* last statement per superpixel.                                                *)
EXTENDS Files
CONSTANTS Nums, Texts, MaxLines
VARIABLES a, b, c, lines
Digits(n) == IF n < 10 THEN <<n>> ELSE IF n < 100 THEN <<n \div 10, n % 10>> ELSE <<n \div 100, (n \div 10) % 10, n % 10>>
Names == {<< [num |-> <<>>, text |-> t] >> : t \in Texts} \cup {<< [num |-> <<>>, text |-> t], [num |-> Digits(n), text |-> u] >> : t \in Texts, n \in Nums, u \in Texts}
Init == a \in Names /\ b \in Names /\ c \in Names /\ lines = <<>>
Line == [kind : {"HV", "HVOn", "other"}, tm : {0, 31}, sp : {0, 15}, val : {0, 7}]
Next == Len(lines) < MaxLines /\ a = b /\ b = c /\ a = << [num |-> <<>>, text |-> <<>>] >> /\ \E l \in Line : lines' = Append(lines, l) /\ UNCHANGED <<a, b, c>>
Spec == Init /\ [][Next]_<<a, b, c, lines>>
Order == /\ ~Before(a, a)
         /\ (Before(a, b) => ~Before(b, a))
         /\ (Before(a, b) /\ Before(b, c) => Before(a, c))
         /\ (~Before(a, b) /\ ~Before(b, a) => a = b)
LastStated == LET d == FoldHV(ZeroHV, lines, "HV")
              IN \A t \in {0, 31}, p \in {0, 15} :
                 LET is == {i \in 1..Len(lines) : lines[i].kind = "HV" /\ lines[i].tm = t /\ lines[i].sp = p}
                 IN d[t * 16 + p + 1] = IF is = {} THEN 0 ELSE lines[CHOOSE i \in is : \A j \in is : j <= i].val
=============================================================================

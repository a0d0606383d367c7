------------------------------- MODULE MC_Pdf -------------------------------
(* The recurrence that the checks ask of binom determines the binomial coefficients: *)
(* any row that starts with 1 and satisfies it is the row of Pascal's triangle.       *)
EXTENDS Pdf
CONSTANTS MaxN, Bound
VARIABLES n, row
Init == n \in 0..MaxN /\ row = <<1>>
\* extend the row by any number that satisfies the recurrence
Next == /\ Len(row) <= n
        /\ \E c \in 0..Bound : c * Len(row) = row[Len(row)] * (n - Len(row) + 1) /\ row' = Append(row, c)
        /\ UNCHANGED n
Spec == Init /\ [][Next]_<<n, row>>
Determined == Len(row) = n + 1 => row = PascalRow(n)
NotStuck == Len(row) <= n => ENABLED Next
Sums == Len(row) = n + 1 => Tot(row) = 2 ^ n
Recursive == Len(row) = n + 1 /\ n <= 8 => \A k \in 0..n : row[k + 1] = Choose_(n, k)
=============================================================================

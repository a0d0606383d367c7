----------------------------- MODULE MC_Counting -----------------------------
(* The crosstalk process as a machine: j first cells are fired one after the other,  *)
(* each firing a chain of further cells.  A behaviour's weight is the product of c    *)
(* for every further cell and 16 - c for every chain that ends.  Summed over all      *)
(* behaviours this gives the closed form of the spectrum's weights, and the table of  *)
(* the specification.                                                                  *)
EXTENDS Counting
CONSTANTS MaxK, Cs
VARIABLES j, path, c        \* path: 1 for a further cell of the same chain, 0 for the end of the chain
vars == <<j, path, c>>
Cells == 1 + Len(path)      \* cells fired when the next chain has begun / the last one ended
Ended == Cardinality({i \in 1..Len(path) : path[i] = 0})
Init == j \in 1..MaxK /\ c \in Cs /\ path = <<>>
\* a chain fires a further cell, or ends and the next first cell begins its own
Grow == Cells < MaxK /\ path' = Append(path, 1) /\ UNCHANGED <<j, c>>
End == Ended < j - 1 /\ Cells < MaxK /\ path' = Append(path, 0) /\ UNCHANGED <<j, c>>
Next == Grow \/ End
Spec == Init /\ [][Next]_vars
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)
\* all complete behaviours with k cells from jj first cells: paths of length k - 1 with jj - 1 ends
Paths(jj, k) == {p \in [1..k - 1 -> {0, 1}] : Cardinality({i \in 1..k - 1 : p[i] = 0}) = jj - 1}
\* every behaviour of the machine is one of these (the last chain's end is not a step), with this weight
Counted == Ended = j - 1 => /\ path \in Paths(j, Cells)
                            /\ Cells - j = Cardinality({i \in 1..Len(path) : path[i] = 1})
Ways == \A k \in j..MaxK : Cardinality(Paths(j, k)) = Binom(k - 1, j - 1)
\* the table is the closed form (1 - o)^j o^(k - j) C(k - 1, j - 1), in units of 2^-20, up to rounding
Closed == LET t == Rows(c, MaxK, MaxK)
          IN \A k \in 1..MaxK : Abs(t[k + 1][j + 1] - (IF k < j THEN 0 ELSE
                (Binom(k - 1, j - 1) * Pow(16 - c, j) * Pow(c, k - j)) * Pow(16, 5 - k))) <= MaxK
\* no cell is lost: what is not yet k cells is still to come
Kept == LET t == Rows(c, MaxK, MaxK)
        IN SumSeq([k \in 1..MaxK + 1 |-> t[k][j + 1]]) <= 1048576 + MaxK * MaxK
Pascal == \A n \in 1..12, k \in 1..12 : Binom(n, k) = Binom(n - 1, k - 1) + Binom(n - 1, k)
\* the Poisson terms satisfy their recurrence and add up to the exponential (e^2 = 7.38906)
Expo == Abs(SumSeq(Pois(16, 25)) - 242124) <= 20
=============================================================================

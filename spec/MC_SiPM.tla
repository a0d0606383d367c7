------------------------------ MODULE MC_SiPM ------------------------------
(* Laws of the conversion for every small sheet: answers lie between the rows around *)
(* the question, a row's own value gives the row, and going there and back agrees.    *)
EXTENDS SiPM
CONSTANTS Vals, Rows
VARIABLES t, v
Col == {f \in [1..Rows -> Vals] : \A i \in 1..Rows - 1 : f[i] < f[i + 1]}
Init == /\ \E a, b, c \in Col, m \in SUBSET (1..Rows) : t = [i \in 1..Rows |-> <<a[i], b[i], IF i \in m THEN NaN ELSE c[i], -a[i]>>]
        /\ \E l, h \in {CHOOSE x \in Vals : \A y \in Vals : x <= y} , d \in {0, 4, 8, 12, 16, 24, 32, 40, 48, 64} : v = l * U + d
Next == FALSE /\ UNCHANGED <<t, v>>
Spec == Init /\ [][Next]_<<t, v>>
Between == \A k \in {1, 2, 4}, c \in {1, 2, 4} : InRange(t, k, v) =>
              LET a == t[Lo(t, k, v)][c] * W
                  b == t[Hi(t, k, v)][c] * W
              IN Inter(t, k, v, c) >= Min(a, b) /\ Inter(t, k, v, c) <= Max(a, b)
Itself == \A k \in {1, 2, 4} : InRange(t, k, v) => Inter(t, k, v, k) = v * (W \div U)
AtRow == \A i \in 1..Rows, k \in {1, 2}, c \in {1, 2, 4} : Inter(t, k, t[i][k] * U, c) = t[i][c] * W
\* the answer is a number exactly when both rows around the question have one (or the row itself)
Missing == \A y \in {NaN, 0} : (InRange(t, 1, v) /\ Lo(t, 1, v) # Hi(t, 1, v) /\ (t[Lo(t, 1, v)][3] = NaN \/ t[Hi(t, 1, v)][3] = NaN)) => (Right(t, 1, v, 3, y) = (y = NaN))
\* there and back: at most a rounding step, scaled by the slope
Back == InRange(t, 1, v) => LET y == Inter(t, 1, v, 2)
                                w == y \div (W \div U)
                            IN (w * (W \div U) = y /\ InRange(t, 2, w)) => Near(Inter(t, 2, w, 1), v * (W \div U), 8)
=============================================================================

-------------------------------- MODULE Lib --------------------------------
(* Operators shared by every component specification.                       *)
EXTENDS Integers, Sequences, FiniteSets

Max(a, b) == IF a >= b THEN a ELSE b
Min(a, b) == IF a <= b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
Sign(a) == IF a > 0 THEN 1 ELSE IF a < 0 THEN -1 ELSE 0
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x

Range(f) == {f[x] : x \in DOMAIN f}

\* Sum of a sequence (or 1-indexed function) of integers, divide and conquer
RECURSIVE SumFromTo(_, _, _)
SumFromTo(f, a, b) ==
    IF a > b THEN 0
    ELSE IF a = b THEN f[a]
    ELSE LET m == (a + b) \div 2
         IN SumFromTo(f, a, m) + SumFromTo(f, m + 1, b)
SumSeq(f) == SumFromTo(f, 1, Len(f))

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

MaxSeq(f) == CHOOSE m \in Range(f) : \A x \in Range(f) : x <= m
MinSeq(f) == CHOOSE m \in Range(f) : \A x \in Range(f) : x >= m

\* 0-based index of the first maximum (numpy.argmax)
ArgMax(f) == LET m == MaxSeq(f)
             IN (CHOOSE i \in 1..Len(f) : f[i] = m /\ \A j \in 1..(i-1) : f[j] # m) - 1

\* Python slice f[a:b] with non-negative bounds (0-based, half open)
Slice(f, a, b) == SubSeq(f, a + 1, Min(b, Len(f)))

MapSeq(f, Op(_)) == [i \in 1..Len(f) |-> Op(f[i])]

\* Rounded division to the nearest integer of non-exact scaled quotients
RoundDiv(a, b) ==
    LET bb == Abs(b)
        aa == IF b < 0 THEN -a ELSE a
    IN IF aa >= 0 THEN (2 * aa + bb) \div (2 * bb) ELSE -((2 * (-aa) + bb) \div (2 * bb))

\* Tolerant comparison of scaled observations (the driver rounds)
Near(a, b, tol) == Abs(a - b) <= tol
NearSeq(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Abs(a[i] - b[i]) <= tol

IsInjectiveSeq(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
SeqToSet(s) == {s[i] : i \in 1..Len(s)}
SelectIdx(s, Test(_)) == {i \in 1..Len(s) : Test(s[i])}
=============================================================================

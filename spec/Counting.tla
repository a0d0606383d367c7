------------------------------ MODULE Counting ------------------------------
(* Photoelectron counting (stats/pdf.py, spectrum_fitters/gentile.py, mapm.py).       *)
(* A pulse fires a Poisson number of cells (mean a/8); each fired cell fires another  *)
(* one with probability c/16 (crosstalk, none for a MAPM).  The spectrum is the sum    *)
(* over the number k of fired cells of its probability times a normal distribution     *)
(* of mean eped + k spe and variance eped_sigma^2 + k spe_sigma^2.                     *)
(* Weights are fixed-point integers relative to the probability of no cell at all.     *)
EXTENDS Lib, TLC

RECURSIVE Binom(_, _)
Binom(n, k) == IF k < 0 \/ k > n THEN 0 ELSE IF k = 0 THEN 1 ELSE (Binom(n, k - 1) * (n - k + 1)) \div k

\* (a/8)^j / j! in units of 2^-15
RECURSIVE Pois(_, _)
Pois(a, j) == IF j = 0 THEN <<32768>>
              ELSE LET p == Pois(a, j - 1) IN Append(p, RoundDiv(p[j] * a, 8 * j))
\* row k of the table of probabilities that j first cells end as k cells, in units of 2^-20: the k-th cell follows
\* one of the same chain (crosstalk) or is the next first cell, the chain before it having ended
RECURSIVE Rows(_, _, _)
Rows(c, k, K) ==      \* <<row 0, ..., row k>>, a row indexed by j + 1
    IF k = 0 THEN << [j \in 1..K + 1 |-> IF j = 1 THEN 1048576 ELSE 0] >>
    ELSE LET t == Rows(c, k - 1, K)
             r == t[k]
         IN Append(t, TLCEval([j \in 1..K + 1 |-> (IF j = 1 THEN 0 ELSE RoundDiv((16 - c) * r[j - 1], 16))
                                                  + (IF j = 1 THEN 0 ELSE RoundDiv(c * r[j], 16))]))
\* weights of 0..K cells in units of 2^-24, and their total over all k
\* (chains are counted complete: the last chain of each j ended, which the table does when the next one starts)
Weights(a, c, K) ==
    LET p == Pois(a, K)
        t == Rows(c, K, K)
    IN TLCEval([k \in 1..K + 1 |-> SumSeq([j \in 1..k |-> (p[j] \div 8) * (t[k][j] \div 256)])])
Total(a) == SumSeq(Pois(a, 30)) * 512
\* observed probability w (in 1/4096) of k cells, up to tol/4096: the code leaves out terms below 1/10000
WeightOk(W, tot, k, w, tol) == Abs(w * (tot \div 4096) - (W[k + 1] \div 4096) * 4096) <= tol * (tot \div 4096)

CountInit(cfg) == [x |-> 0]
NaN == -999999998
NInf == -999999996
\* the Poisson law: p[k + 1] (k + 1) = p[k] mu, and the whole is one (p in units of 10^-6, mu = a/8)
PoissonLaw(p, a, total) == /\ \A k \in 1..Len(p) - 1 : Abs(8 * k * p[k + 1] - a * p[k]) <= (a + 8 * k)
                           /\ total => Abs(SumSeq(p) - 1000000) <= Len(p)
CountStep(s, e) ==
  [s |-> s,
   c |-> IF e.err # "" THEN << <<"no_error", FALSE>> >>
         ELSE CASE e.op = "binom" -> << <<"binomial", e.got = [i \in 1..Len(e.nk) |-> Binom(e.nk[i][1], e.nk[i][2])]>> >>
           [] e.op = "poisson" -> << <<"poisson", PoissonLaw(e.got, e.a, TRUE)>>, <<"log_poisson", PoissonLaw(e.log, e.a, TRUE)>> >>
           [] e.op = "normal" -> << <<"normal", e.got = [i \in 1..Len(e.x) |-> (e.x[i] - e.mean) * (e.x[i] - e.mean)]>> >>
           [] e.op = "xlogy" ->    \* x log2(y) for y = 2^m, in 1/1000
              << <<"xlogy", e.got = [i \in 1..Len(e.x) |-> IF e.kind[i] = "nan" THEN NaN ELSE IF e.x[i] = 0 THEN 0
                                                           ELSE IF e.kind[i] = "zero" THEN NInf ELSE e.x[i] * e.m[i] * 1000]>> >>
           [] e.op = "spectrum" -> \* one illumination per entry of e.ill: [a, c, s, t, h, got] with got[k + 1] = <<weight, shape left, shape right>>
              Concat([i \in 1..Len(e.ill) |->
                 LET l == e.ill[i]
                     K == Len(l.got) - 1
                     W == Weights(l.a, l.c, K)
                     tot == Total(l.a)
                 IN << <<"weights", \A k \in 0..K : WeightOk(W, tot, k, l.got[k + 1][1], 5)>>,
                       <<"peaks", \A k \in 0..K : LET g == l.got[k + 1] IN (g[1] >= 8 => (Len(g) = 3 /\ g[2] = l.h * l.h /\ g[3] = l.h * l.h))>> >>])
           [] e.op = "moments" ->  \* area in 1/4096, mean in 1/8, of a spectrum with overlapping peaks
              << <<"area", Near(e.area, 4096, 16)>>,
                 <<"mean", Near(e.mean, e.eped + RoundDiv(e.spe * e.a * 2, 16 - e.c), 4 + (e.spe * e.a) \div (4 * (16 - e.c)))>> >>
           [] e.op = "likelihood" -> \* e.terms: per illumination, per bin, the log-probability of the bin in 1/100
              << <<"likelihood", e.terms_ok => Near(e.got, -2 * SumSeq([i \in 1..Len(e.terms) |-> SumSeq(e.terms[i])]), 4 + SumSeq([i \in 1..Len(e.terms) |-> Len(e.terms[i])]))>>,
                 <<"additive", Near(e.got, SumSeq(e.single), 4)>>,
                 <<"least_at_truth", \A i \in 1..Len(e.other) : e.got <= e.other[i] + e.slack>> >>
           [] OTHER -> << <<"TypeOK", FALSE>> >>]
=============================================================================

------------------------------ MODULE Reducers ------------------------------
(* The waveform reducers (waveform_reducers/*.py): every DL1 column as its     *)
(* definition on integer waveforms.  Waveforms are matrices wf[pixel][sample]  *)
(* (1-based here, positions reported 0-based like the code); the driver scales  *)
(* codes by an exactly representable unit (cfg.unit per 1.0 mV).               *)
(* Observed values: scaled integers, scale noted per column.  Real arithmetic  *)
(* of the code is compared within the rounding of its floating-point type;     *)
(* where an exact tie lets rounding decide, every tied choice is allowed.       *)
EXTENDS Lib, TLC

NaN == -999999998
BADV == -999999999
ANY == -999999990      \* expected value "anything" (decided by rounding)

NearV(o, e, tol) == e = ANY \/ (e = NaN /\ o = NaN) \/ (e # NaN /\ o # NaN /\ Abs(o - e) <= tol)
NearVSeq(o, e, tol) == Len(o) = Len(e) /\ \A i \in 1..Len(e) : NearV(o[i], e[i], tol)

\* num/den with den # 0, scaled, rounded; two-step to stay within 32 bits
ScaleDiv(num, den, scale) ==
    LET d == Abs(den)
        n == IF den < 0 THEN -num ELSE num
        qq == Abs(n) \div d
        r  == Abs(n) % d
        v  == qq * scale + (2 * r * scale + d) \div (2 * d)
    IN IF n < 0 THEN -v ELSE v

NSamp(wf) == Len(wf[1])
ColSums(wf) == TLCEval([i \in 1..NSamp(wf) |-> SumSeq([p \in 1..Len(wf) |-> wf[p][i]])])

\* position of the maximum of the camera average, kept 10 samples from the ends
AvgPeak(wf) ==
    LET t == ArgMax(ColSums(wf))
        n == NSamp(wf)
    IN IF t < 10 THEN 10 ELSE IF t > n - 10 THEN n - 10 ELSE t
TExtract(s, wf) == IF s.textract >= 0 THEN s.textract ELSE AvgPeak(wf)

WinSum(w, a, b) == SumFromTo(w, Max(a, 0) + 1, Min(b, Len(w)))    \* samples a..b-1

\* ---- Common -----------------------------------------------------------------
Var2(w, a, b) ==   \* n^2 * variance of samples a..b-1
    LET n == b - a
        v == SubSeq(w, a + 1, b)
        s1 == SumSeq(v)
        s2 == SumSeq([i \in 1..n |-> v[i] * v[i]])
    IN n * s2 - s1 * s1
MeanOk(o, w, a, b) == Abs(o - 10 * WinSum(w, a, b)) <= 2                 \* mean * n, scale 10
StdOk(o, w, a, b) == LET v == Var2(w, a, b) IN Abs(o - v) <= 2 + v \div 5000   \* std^2 * n^2, scale 1

\* ---- Timing -------------------------------------------------------------------
RoundHalfEven(num, den) ==     \* den > 0
    LET f == num \div den
        r == num - f * den
    IN IF 2 * r > den THEN f + 1 ELSE IF 2 * r < den THEN f
       ELSE IF f % 2 = 0 THEN f ELSE f + 1

\* first crossing going right from i0: <<found, exact-touch, position * 1000>>
Crossing(w, n, L, D, from, to, dir) ==
    \* level L/D (D > 0); pairs (xi, xi + dir), xi from `from` to `to`
    LET at(i) == w[i + 1]
        xs == IF dir = 1 THEN {i \in from..to : TRUE} ELSE {i \in to..from : TRUE}
        \* an exact value equal to the level makes the code's comparisons a matter of rounding
        touch == \E i \in xs : at(i) * D = L \/ at(i + dir) * D = L
        hit == {i \in xs : at(i) * D > L /\ L > at(i + dir) * D}
        x == IF dir = 1 THEN CHOOSE i \in hit : \A j \in hit : i <= j
             ELSE CHOOSE i \in hit : \A j \in hit : i >= j
    IN IF touch THEN <<"touch", 0>>
       ELSE IF hit = {} THEN <<"none", 0>>
       ELSE <<"hit", 1000 * x + dir * ScaleDiv(at(x) * D - L, D * (at(x) - at(x + dir)), 1000)>>

Pulse(w, ws, we) ==
    LET n  == Len(w)
        at(i) == w[i + 1]
        pk == ws + ArgMax(SubSeq(w, ws + 1, we))
        a  == at(pk - 1) - at(pk + 1)
        b  == at(pk - 1) - 2 * at(pk) + at(pk + 1)
        den == IF b > 0 THEN 2 * b ELSE -2 * b
        num == (IF b > 0 THEN a ELSE -a) + pk * den
        zero == [t |-> 0, amp |-> 0, fwhm |-> 0, rise |-> 0]
        B  == SumFromTo(w, 1, Min(10, n))           \* 10 * baseline
        hn == 8 * b * at(pk) - a * a                \* h = hn / (8 b)
        ip == Min(RoundHalfEven(num, den), n - 1)
        sg == IF b > 0 THEN 1 ELSE -1
        D  == 800 * b * sg
        \* baseline + f * (h - baseline) = (1-f) B/10 + f hn/(8b), over D
        half == sg * (40 * b * B + 50 * hn)
        p10  == sg * (72 * b * B + 10 * hn)
        p90  == sg * (8 * b * B + 90 * hn)
        fr == Crossing(w, n, half, D, ip, n - 2, 1)
        fl == Crossing(w, n, half, D, ip, 1, -1)
        r9 == Crossing(w, n, p90, D, ip, 1, -1)
        r1 == Crossing(w, n, p10, D, ip, 1, -1)
        diff(x, y) == IF x[1] = "touch" \/ y[1] = "touch" THEN ANY
                      ELSE IF x[1] = "none" \/ y[1] = "none" THEN NaN ELSE x[2] - y[2]
    IN IF b = 0 \/ num < 0 \/ num >= n * den THEN zero
       ELSE [t |-> ScaleDiv(num, den, 1000), amp |-> ScaleDiv(hn, 8 * b, 1000) - 100 * B,
             fwhm |-> diff(fr, fl), rise |-> diff(r9, r1)]

Pulses(s, wf) ==
    LET ws == TExtract(s, wf) - s.shiftt
    IN TLCEval([p \in 1..Len(wf) |-> TLCEval(Pulse(wf[p], ws, ws + s.wst))])

\* ---- correlation with a kernel: out[i] = sum_j w[i + j - m] k[j] ------------------
Corr(w, k, m) ==
    LET n == Len(w)
    IN TLCEval([i \in 1..n |-> SumSeq([j \in 1..Len(k) |->
            LET x == i + (j - 1) - m IN IF x >= 1 /\ x <= n THEN w[x] * k[j] ELSE 0])])
CorrAll(wf, k, m) == TLCEval([p \in 1..Len(wf) |-> Corr(wf[p], k, m)])
ArgMaxSet(f) == LET m == MaxSeq(f) IN {i - 1 : i \in {j \in 1..Len(f) : f[j] = m}}

\* average over the neighbours of pixel p (neighbours given 1-based); sums suffice for the position
NbSum(X, nb) == TLCEval([i \in 1..Len(X[1]) |-> SumSeq([q \in 1..Len(nb) |-> X[nb[q]][i]])])

\* peak time by quadratic interpolation at 0-based position pk, in 1/1000 samples
PeakTimeOk(o, y, pk) ==
    LET n == Len(y)
        at(i) == y[i + 1]
    IN IF pk <= 0 \/ pk >= n - 1 THEN o = 1000 * pk
       ELSE LET a == at(pk - 1) - at(pk + 1)
                b == at(pk - 1) - 2 * at(pk) + at(pk + 1)
                den == 2 * b
                v == ScaleDiv(a, den, 1000) + 1000 * pk
                tol == 3 + (((Abs(a) \div Abs(den)) + 2) * Max(Abs(at(pk)), 1)) \div (1000 * Abs(b))
                edge == Abs(v) <= tol \/ Abs(v - 1000 * n) <= tol
            IN \* on a flat top the rounding noise decides
               IF b = 0 THEN a = 0 \/ o = 1000 * pk
               ELSE \/ ((v >= 0 /\ v < 1000 * n) \/ edge) /\ Abs(o - v) <= tol
                    \/ (v < 0 \/ v >= 1000 * n \/ edge) /\ o = 1000 * pk

\* charge = cc * S / sum(y^2) with S = trapz(y); height = charge * max(y) / S
RefOrigin(ref) == ArgMax(ref)
RefS2(ref) == 2 * SumSeq(ref) - ref[1] - ref[Len(ref)]
RefN(ref) == SumSeq([i \in 1..Len(ref) |-> ref[i] * ref[i]])
CCCharge(ref, c) == ScaleDiv(c * RefS2(ref), 2 * RefN(ref), 10)
CCHeight(ref, c) == ScaleDiv(c * MaxSeq(ref), RefN(ref), 10)

\* columns that depend on one common or per-pixel peak position pk(p)
CCOk(ref, X, col, o, pk(_)) ==
    /\ Len(o) = Len(X)
    /\ \A p \in 1..Len(X) :
         CASE col \in {"charge_cc", "charge_cc_local", "charge_cc_nn"} ->
                Abs(o[p] - CCCharge(ref, X[p][pk(p) + 1])) <= 2
           [] col \in {"height_cc", "height_cc_local", "height_cc_nn"} ->
                Abs(o[p] - CCHeight(ref, X[p][pk(p) + 1])) <= 2
           [] OTHER -> PeakTimeOk(o[p], X[p], pk(p))

\* sliding windows: sums of ws samples starting at i
Slide(w, ws) == Corr(w, [j \in 1..ws |-> 1], 0)
SlideSum(w, pk, ws) == WinSum(w, pk, pk + ws)
\* positive-sample weighted mean position, scale 1000
SlideTime(w, pk, ws) ==
    LET idx == {i \in pk..(pk + ws - 1) : i >= 0 /\ i < Len(w) /\ w[i + 1] > 0}
        num == SumSeq([j \in 1..ws |-> IF (pk + j - 1) \in idx THEN (pk + j - 1) * w[pk + j] ELSE 0])
        den == SumSeq([j \in 1..ws |-> IF (pk + j - 1) \in idx THEN w[pk + j] ELSE 0])
    IN IF den = 0 THEN 1000 * pk ELSE ScaleDiv(num, den, 1000)

\* the same where the window may start before the waveform; `def` when nothing is positive
SlideTime2Ok(o, w, start, ws, def) ==
    LET pos(i) == i >= 0 /\ i < Len(w) /\ (IF i >= 0 /\ i < Len(w) THEN w[i + 1] > 0 ELSE FALSE)
        num == SumSeq([j \in 1..ws |-> IF pos(start + j - 1) THEN (start + j - 1) * w[start + j] ELSE 0])
        den == SumSeq([j \in 1..ws |-> IF pos(start + j - 1) THEN w[start + j] ELSE 0])
    IN IF den = 0 THEN o = 1000 * def ELSE Abs(o - ScaleDiv(num, den, 1000)) <= 2

\* ---- one column -------------------------------------------------------------------
AllPix(wf, o, Ok(_, _)) == Len(o) = Len(wf) /\ \A p \in 1..Len(wf) : Ok(o[p], wf[p])

ColumnOk(s, wf, col, o) ==
  LET n == NSamp(wf)
      np == Len(wf)
      m == RefOrigin(s.ref)
  IN
  CASE col = "baseline_start_mean" -> AllPix(wf, o, LAMBDA x, w : MeanOk(x, w, 0, Min(20, n)))
    [] col = "baseline_end_mean"   -> AllPix(wf, o, LAMBDA x, w : MeanOk(x, w, Max(0, n - 20), n))
    [] col = "waveform_mean"       -> AllPix(wf, o, LAMBDA x, w : MeanOk(x, w, 0, n))
    [] col = "baseline_start_rms"  -> AllPix(wf, o, LAMBDA x, w : StdOk(x, w, 0, Min(20, n)))
    [] col = "baseline_end_rms"    -> AllPix(wf, o, LAMBDA x, w : StdOk(x, w, Max(0, n - 20), n))
    [] col = "waveform_rms"        -> AllPix(wf, o, LAMBDA x, w : StdOk(x, w, 0, n))
    [] col = "waveform_max"        -> AllPix(wf, o, LAMBDA x, w : x = 10 * MaxSeq(w))
    [] col = "t_averagewf"         -> o = <<TExtract(s, wf)>>
    [] col = "t_event"             -> o = <<TExtract(s, wf)>>
    [] col = "charge_averagewf"    -> LET a == TExtract(s, wf) - s.shifta
                                      IN AllPix(wf, o, LAMBDA x, w : Abs(x - 10 * WinSum(w, a, a + s.wsa)) <= 1)
    [] col = "saturation_sum"      -> LET a == TExtract(s, wf) - s.shifts
                                      IN AllPix(wf, o, LAMBDA x, w : Abs(x - 10 * WinSum(w, a, n)) <= 1)
    [] col \in {"sp_max", "sp_argmax"} ->
         LET sp(k) == TLCEval([i \in 1..n |-> SumSeq([j \in 1..4 |-> wf[4 * (k - 1) + j][i]])])
         IN Len(o) = np /\ \A k \in 1..(np \div 4) : \A j \in 1..4 :
              o[4 * (k - 1) + j] = IF col = "sp_max" THEN 10 * MaxSeq(sp(k)) ELSE ArgMax(sp(k))
    [] col = "flasher_unit" ->
         LET peak(m0) == SumSeq([j \in 1..64 |-> MaxSeq(wf[64 * m0 + j])])
             v == TLCEval(<<peak(5), peak(23), peak(8), peak(26)>>)
             thr == 64 * 30 * s.unit
         IN IF \E i \in 1..4 : v[i] < thr THEN o = <<-1>>
            ELSE Len(o) = 1 /\ o[1] \in ArgMaxSet(v)
    [] col = "t_pulse"     -> LET P == Pulses(s, wf) IN NearVSeq(o, [p \in 1..np |-> P[p].t], 2)
    [] col = "t_pulse_amp" -> LET P == Pulses(s, wf) IN NearVSeq(o, [p \in 1..np |-> P[p].amp], 3)
    [] col = "fwhm"        -> LET P == Pulses(s, wf) IN NearVSeq(o, [p \in 1..np |-> P[p].fwhm], 5)
    [] col = "t_rise"      -> LET P == Pulses(s, wf) IN NearVSeq(o, [p \in 1..np |-> P[p].rise], 5)
    [] col \in {"t_cc", "charge_cc", "height_cc"} ->
         LET X == CorrAll(wf, s.ref, m)
         IN \E t \in ArgMaxSet(ColSums(X)) : CCOk(s.ref, X, col, o, LAMBDA p : t)
    [] col \in {"t_cc_local", "charge_cc_local", "height_cc_local"} ->
         LET X == CorrAll(wf, s.ref, m)
         IN Len(o) = np /\ \A p \in 1..np : \E t \in ArgMaxSet(X[p]) :
               CCOk(s.ref, <<X[p]>>, col, <<o[p]>>, LAMBDA z : t)
    [] col \in {"t_cc_nn", "charge_cc_nn", "height_cc_nn"} ->
         LET X == CorrAll(wf, s.ref, m)
         IN Len(o) = np /\ \A p \in 1..np : \E t \in ArgMaxSet(NbSum(X, s.nb[p])) :
               CCOk(s.ref, <<X[p]>>, col, <<o[p]>>, LAMBDA z : t)
    [] col = "charge_sliding" -> \E t \in ArgMaxSet(Slide(ColSums(wf), s.wsl)) :
                                    AllPix(wf, o, LAMBDA x, w : x = 10 * SlideSum(w, t, s.wsl))
    [] col = "t_sliding" -> \E t \in ArgMaxSet(Slide(ColSums(wf), s.wsl)) :
                                    AllPix(wf, o, LAMBDA x, w : Abs(x - SlideTime(w, t, s.wsl)) <= 2)
    [] col = "charge_sliding_local" -> AllPix(wf, o, LAMBDA x, w : x = 10 * MaxSeq(Slide(w, s.wsl)))
    [] col = "t_sliding_local" -> AllPix(wf, o, LAMBDA x, w : \E t \in ArgMaxSet(Slide(w, s.wsl)) :
                                                       Abs(x - SlideTime(w, t, s.wsl)) <= 2)
    [] col \in {"charge_sliding_nn", "t_sliding_nn"} ->
         Len(o) = np /\ \A p \in 1..np : \E t \in ArgMaxSet(Slide(NbSum(wf, s.nb[p]), s.wsl)) :
              IF col = "charge_sliding_nn" THEN o[p] = 10 * SlideSum(wf[p], t, s.wsl)
              ELSE Abs(o[p] - SlideTime(wf[p], t, s.wsl)) <= 2
    [] col = "charge_local" -> AllPix(wf, o, LAMBDA x, w : \E t \in {ArgMax(w)} :
                                   x = 10 * WinSum(w, t - s.shifta, t - s.shifta + s.wsa))
    [] col = "t_local" -> AllPix(wf, o, LAMBDA x, w : LET t == ArgMax(w) - s.shifta IN
                                   SlideTime2Ok(x, w, t, s.wsa, ArgMax(w)))
    [] col \in {"charge_nn", "t_nn"} ->
         Len(o) = np /\ \A p \in 1..np : \E t \in ArgMaxSet(NbSum(wf, s.nb[p])) :
              IF col = "charge_nn" THEN o[p] = 10 * WinSum(wf[p], t - s.shifta, t - s.shifta + s.wsa)
              ELSE SlideTime2Ok(o[p], wf[p], t - s.shifta, s.wsa, t)
    [] OTHER -> FALSE

ReducersInit(cfg) == cfg

ReducersStep(s, e) ==
    [ s |-> s,
      c |-> << <<"no_error", e.err = "">>,
               <<"columns_returned", {e.obs[i].col : i \in 1..Len(e.obs)} = SeqToSet(e.cols)>> >>
            \o [i \in 1..Len(e.obs) |-> <<e.obs[i].col, ColumnOk(s, e.wf, e.obs[i].col, e.obs[i].val)>>] ]
=============================================================================

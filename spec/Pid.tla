------------------------------- MODULE Pid -------------------------------
(***************************************************************************)
(* Control laws: the PID core, input and set-point hysteresis, stepwise    *)
(* tables, and the selection of a controller's input.                      *)
(***************************************************************************)
EXTENDS Num, SequencesExt

\* coefficients: [ts, kp, ki, kd, ffo, ffg, imin, imax, omin, omax,
\*                sneg, spos, hpos, hneg, chk]
PidInit == [init |-> FALSE, integral |-> 0, lastErr |-> 0, lastOut |-> 0,
            lastIn |-> NAN]

\* One evaluation.  Returns the new state and all terms.
PidLaw(c, s, in, sp) ==
    LET err   == FSub(sp, in)
        p     == FMul(err, c.kp)
        i1    == IF c.ki = 0 THEN 0
                 ELSE FAdd(s.integral, FMul(FMul(err, c.ki), c.ts))
        i2    == IF c.ki = 0 THEN 0 ELSE Clamp(i1, c.imin, c.imax)
        d     == IF c.kd = 0 THEN 0
                 ELSE FMul(FDiv(FSub(err, s.lastErr), c.ts), c.kd)
        ff    == IF c.ffg = 0 THEN 0 ELSE FMul(FAdd(sp, c.ffo), c.ffg)
        o1    == FAdd(FAdd(FAdd(p, i2), d), ff)
        o2    == Clamp(o1, c.omin, c.omax)
        lo    == IF s.init /\ c.sneg # 0
                 THEN FAdd(s.lastOut, FMul(c.sneg, c.ts)) ELSE 0
        hi    == IF s.init /\ c.spos # 0
                 THEN FAdd(s.lastOut, FMul(c.spos, c.ts)) ELSE 0
        o3a   == IF s.init /\ c.sneg # 0 THEN FMax(o2, lo) ELSE o2
        o3    == IF s.init /\ c.spos # 0 THEN FMin(o3a, hi) ELSE o3a
        i3    == IF s.init /\ (c.sneg # 0 \/ c.spos # 0) THEN FSub(o3, p) ELSE i2
        i4    == Clamp(i3, c.imin, c.imax)
    IN [st |-> [init |-> TRUE, integral |-> i4, lastErr |-> err,
                lastOut |-> o3, lastIn |-> s.lastIn],
        out |-> o3,
        terms |-> <<in, sp, err, p, i1, i2, d, ff, o1, o2, lo, hi, i3, o3, i4, o3>>]

\* the input a controller adopts, given the last one it adopted
Adopt(last, in, hpos, hneg) ==
    IF in = INEX \/ last = INEX THEN INEX
    ELSE IF ~IsFin(last) THEN in
    ELSE IF Gt(FSub(in, last), hpos) THEN in
    ELSE IF Gt(FSub(last, in), hneg) THEN in
    ELSE last

\* A controller step: hysteresis around the law.  `terms` is <<>> when the law
\* was not evaluated.
PidStep(c, s, in, sp) ==
    IF c.chk THEN
        IF in = INEX \/ sp = INEX THEN
            [st |-> [s EXCEPT !.lastOut = INEX, !.integral = INEX, !.lastErr = INEX,
                              !.lastIn = INEX],
             out |-> INEX, terms |-> <<INEX>>]
        ELSE IF Gt(in, FAdd(sp, c.hpos)) THEN
            LET r == PidLaw(c, s, in, sp)
            IN [r EXCEPT !.st.lastIn = in]
        ELSE IF Lt(in, FSub(sp, c.hneg)) THEN
            [st |-> [s EXCEPT !.integral = 0, !.lastOut = 0, !.lastIn = sp],
             out |-> 0, terms |-> <<>>]
        ELSE
            [st |-> [s EXCEPT !.lastIn = in], out |-> s.lastOut, terms |-> <<>>]
    ELSE IF c.hpos = 0 /\ c.hneg = 0 THEN
        LET r == PidLaw(c, s, in, sp) IN [r EXCEPT !.st.lastIn = in]
    ELSE
        LET a == Adopt(s.lastIn, in, c.hpos, c.hneg)
            r == PidLaw(c, s, a, sp)
        IN [r EXCEPT !.st.lastIn = a]

(* stepwise ***************************************************************)
\* sw: [pts |-> <<<<reading, output>>, ...>>, hpos, hneg, ceil]
StepInit == [last |-> NAN, out |-> NAN]

RECURSIVE TableFrom(_, _, _, _)
TableFrom(pts, in, i, v) ==
    IF i > Len(pts) \/ i > 20 THEN v
    ELSE IF pts[i][1] = NAN \/ Gt(pts[i][1], in) THEN v
    ELSE TableFrom(pts, in, i + 1, pts[i][2])

Table(pts, in) ==
    IF in = INEX THEN INEX
    ELSE TableFrom(pts, in, 2, IF pts = <<>> THEN NAN ELSE pts[1][2])

SwStep(sw, s, in) ==
    LET eval == [last |-> in, out |-> Table(sw.pts, in)]
    IN IF in = INEX \/ s.last = INEX THEN [last |-> INEX, out |-> INEX]
       ELSE IF s.out = NAN THEN eval
       ELSE IF Gt(FSub(in, s.last), sw.hpos) THEN eval
       ELSE IF Gt(FSub(s.last, in), sw.hneg) THEN eval
       ELSE s

SwInput(vals) ==
    FoldLeft(LAMBDA acc, v: IF v = NAN THEN acc ELSE FMax(acc, v), LOWEST, vals)

(* thermal PID input *******************************************************)
\* vals: sequence of [n |-> name, v |-> reading, conv |-> BOOLEAN, zero |-> value]
\* result: [v |-> input, dbg |-> TRUE iff a reading decided it,
\*          lead |-> its sensor, dv |-> the value shown with it]
ThermInput(type, vals, sp) ==
    LET start == CASE type = "margin" -> HIGHEST
                   [] type = "powersum" -> 0
                   [] OTHER -> LOWEST
        one(acc, e) ==
            IF ~IsFin(e.v) THEN acc
            ELSE LET x == IF type = "margin" /\ e.conv THEN FSub(e.zero, e.v) ELSE e.v
                     n == CASE type = "margin" -> FMin(acc.v, x)
                            [] type = "powersum" -> FAdd(acc.v, x)
                            [] OTHER -> FMax(acc.v, x)
                     ch == ~acc.ok \/ (IF type = "powersum" THEN x # 0 ELSE n # acc.v)
                     dk == acc.ok /\ type # "powersum" /\ INEX \in {x, acc.v}
                 IN [v |-> n, ok |-> TRUE,
                     lead |-> IF dk THEN "?" ELSE IF ch THEN e.n ELSE acc.lead]
        r == FoldLeft(one, [v |-> start, ok |-> FALSE, lead |-> ""], vals)
    IN IF r.ok THEN [v |-> r.v, dbg |-> TRUE, lead |-> r.lead]
       ELSE [v |-> sp, dbg |-> FALSE, lead |-> ""]

FanInput(us) ==
    LET good == SelectSeq(us, LAMBDA u: IsFin(u) /\ (u = INEX \/ u > 0))
    IN IF good = <<>> THEN 0
       ELSE FoldLeft(FMin, Head(good), Tail(good))
===========================================================================

-------------------------------- MODULE Props --------------------------------
(***************************************************************************)
(* The properties, stated on one transition of the daemon and as far as    *)
(* possible independently of the operational text: from what is published, *)
(* configured and remembered in ghost variables, not from the daemon's own *)
(* intermediate results.                                                   *)
(*                                                                         *)
(*   s  the state before (normalised: s.now = 0)                           *)
(*   a  what arrived: sequence of operations (<<>>: a timer)               *)
(*   R  the state after, with everything visible in R.out and R.res        *)
(*   G  the ghost state before, H the ghost state after                    *)
(*                                                                         *)
(* Ghost state:                                                            *)
(*   disc   sensors whose reading was discarded since the last good one    *)
(*   val    sensor -> last finite value published while it was built       *)
(*   age    sensor -> ms since its last accepted reading (capped)          *)
(*   ext    external sensor -> last value written                          *)
(*   force  zones put in automatic mode since their last cycle             *)
(*   ran    zone -> cycles run since start (modulo the cadence)            *)
(*   cmd    fan -> last integer commanded                                  *)
(*   hup    ms until a requested reload is due, -1: none                   *)
(*   msgs   zone -> ages of the messages of the last second                *)
(*   said   zone -> failure messages since the reported state last changed *)
(*   line   core log -> age (capped) and terms of its latest line          *)
(***************************************************************************)
EXTENDS Machine

Ix(seq) == 1..Len(seq)
MaxOf(set) == CHOOSE v \in set: \A w \in set: w <= v
MinOf(set) == CHOOSE v \in set: \A w \in set: w >= v

Ticked(R) == {R.out.ticks[i]: i \in Ix(R.out.ticks)}
\* loops that started in this step
Began(s, R) == {z \in Running(R): z \notin Running(s) \/ R.want # <<>>}
\* zones whose loop went on
Went(s, R) == IF R.want # <<>> THEN {} ELSE Running(s) \cap Running(R)

(* ghost *******************************************************************)
GhostInit == [disc |-> {}, val |-> EmptyFun, age |-> EmptyFun, ext |-> EmptyFun, force |-> {},
              ran |-> EmptyFun, cmd |-> EmptyFun, hup |-> -1,
              msgs |-> EmptyFun, said |-> EmptyFun, line |-> EmptyFun]

\* sensor n hears of operation op
Hear(R, n, op, acc) ==
    LET x == R.sens[n]
    IN IF op.op = "set" /\ op.sig /\ x.kind = "pas" /\ op.path = x.path THEN
          IF op.iface = IValue /\ "Value" \in DOMAIN op.props THEN
              IF IsFin(op.props["Value"].v)
              THEN [acc EXCEPT !.disc = @ \ {n}, !.bad = @ \ {n}, !.fresh = @ \cup {n},
                               !.val = Put(@, n, op.props["Value"].v)]
              ELSE [acc EXCEPT !.bad = @ \cup {n}]
          ELSE IF op.iface = IAvail /\ "Available" \in DOMAIN op.props /\ ~op.props["Available"].v
          THEN [acc EXCEPT !.disc = @ \cup {n}, !.fresh = @ \cup {n}]
          ELSE acc
       ELSE IF op.op = "setprop" /\ x.kind = "ext" /\ op.path = x.path /\ op.iface = IValue
               /\ op.prop = "Value" /\ op.s = "d"
       THEN [acc EXCEPT !.fresh = @ \cup {n}, !.ext = Put(@, n, op.v)]
       ELSE acc

\* the passes a loop has made: one at the start, and one whenever the fan
\* intervals run since then have filled another thermal interval
PassesAfter(c, k) == IF k = 0 THEN 1 ELSE 1 + ((k - 1) * c.fan) \div c.therm

GhostNext(s, a, R, G) ==
    LET launch == R.want # <<>>
        base == IF launch
                THEN [disc |-> {}, bad |-> {}, fresh |-> DOMAIN R.sens, ext |-> EmptyFun, val |-> EmptyFun]
                ELSE [disc |-> G.disc, bad |-> {}, fresh |-> {}, ext |-> G.ext, val |-> G.val]
        one(acc, op) == FoldLeft(LAMBDA b, n: IF n \in DOMAIN R.sens THEN Hear(R, n, op, b) ELSE b,
                                 acc, SetToSeq(DOMAIN R.sens))
        h == IF launch THEN base ELSE FoldLeft(one, base, a)
        wv(n) == WGet(R.world, R.sens[n].path, IValue, "Value", NAN)
        zs == DOMAIN R.zones
        setauto == {z \in zs: \E i \in Ix(a): a[i].op = "setprop" /\ a[i].iface = IMode /\ a[i].path = ZonePath(z)
                                  /\ a[i].s = "b" /\ ~a[i].v}
                   \cup {z \in zs: \E i \in Ix(a): a[i].op = "ipmi" /\ Len(a[i].bytes) >= 3
                                  /\ a[i].bytes[1] = 1 /\ a[i].bytes[2] = z /\ a[i].bytes[3] = 0}
        tk == Ticked(R)
        began == Began(s, R)
        k(z) == IF z \in began THEN 0 ELSE Get(G.ran, z, 0) + (IF z \in tk THEN 1 ELSE 0)
        cmds == FoldLeft(LAMBDA f, w: Put(f, w.n, w.v), IF launch THEN EmptyFun ELSE G.cmd, R.out.w)
        dt == R.now
        hs == \E i \in Ix(a): a[i].op = "hup"
    IN [disc |-> h.disc,
        val |-> IF launch THEN [n \in {m \in DOMAIN R.sens: R.sens[m].kind = "pas"} |-> wv(n)] ELSE h.val,
        age |-> [n \in {m \in DOMAIN R.sens: R.sens[m].kind \in {"pas", "ext"}} |->
                    IF n \in h.fresh \/ R.cfg[n].tmo = 0 THEN 0
                    ELSE LET g == Get(G.age, n, 0) + dt IN IF g > 1000 * R.cfg[n].tmo THEN 1000 * R.cfg[n].tmo ELSE g],
        ext |-> h.ext,
        force |-> IF launch THEN {} ELSE ((G.force \cup setauto) \ tk) \cap zs,
        ran |-> [z \in Running(R) |-> LET kk == k(z)
                                          c == R.zones[z].c
                                      \* the cadence repeats: keep the count small
                                      IN IF kk > 1 /\ ((kk - 1) * c.fan) % c.therm = 0 THEN 1 ELSE kk],
        cmd |-> [n \in DOMAIN cmds \cap DOMAIN R.sens |-> cmds[n]],
        hup |-> IF hs THEN 1000 ELSE IF G.hup < 0 THEN -1 ELSE IF G.hup - dt <= 0 THEN -1 ELSE G.hup - dt,
        \* kept as ages
        msgs |-> [z \in zs |-> MapSeq(LAMBDA t: t + dt, SelectSeq(IF launch THEN <<>> ELSE Get(G.msgs, z, <<>>), LAMBDA t: t + dt < 1000))
                               \o [i \in 1..Len(SelectSeq(R.out.lg, LAMBDA m: m[1] = z)) |-> 0]],
        \* where messages were dropped the reported state may have changed unseen
        said |-> [z \in zs |-> IF Len(R.zones[z].fl.ts) >= LogLimit THEN {}
                               ELSE FoldLeft(LAMBDA q, m: IF m[1] # z THEN q
                                             ELSE IF m[2] = "leave" THEN {} ELSE q \cup {<<m[3], m[4]>>},
                                        IF launch THEN {} ELSE Get(G.said, z, {}), R.out.lg)],
        line |-> FoldLeft(LAMBDA f, l: Put(f, l[1], [age |-> 0, terms |-> l[3]]),
                          [n \in DOMAIN G.line |-> [G.line[n] EXCEPT !.age = IF @ + dt > 60000 THEN 60000 ELSE @ + dt]], R.out.core)]

(* C01 *********************************************************************)
PctOf(zc, n) ==
    LET c == {zc.pids[i].fsp: i \in {j \in Ix(zc.pids): \E k \in Ix(zc.pids[j].inputs): zc.pids[j].inputs[k].n = n}}
        m == MaxOf(c)
    IN IF m = 0 THEN zc.fsp ELSE m
Floor(z) == LET m == MaxOf({PctOf(z.c, n): n \in DOMAIN z.fs}) IN IF m = 0 THEN z.c.fsp ELSE m
FanPidOf(z, n) == CHOOSE i \in Ix(z.c.pids): IsFanPid(z.c.pids[i]) /\ \E k \in Ix(z.c.pids[i].inputs): z.c.pids[i].inputs[k].n = n
BadC01(s, R) ==
    \E y \in Ticked(R): LET z == R.zones[y]
       IN \E k \in Ix(z.fans):
            LET n == z.fans[k]
                got == z.outc[n].p
                computed == z.pst[FanPidOf(z, n)].lastOut
                ok == IF computed = INEX \/ got = INEX THEN TRUE
                      ELSE IF R.opts.tuning \/ DOMAIN z.fs = {} THEN got = computed
                      ELSE IF R.var.strict THEN got = Floor(z)
                      ELSE got >= Floor(z) /\ (got = computed \/ (got = Floor(z) /\ computed < got))
            IN ~ok

(* C03, C21, C27: whether a sensor counts as failed, from what is published *)
HostOn(R) == EndsWith(WGet(R.world, PHost, IHost, "CurrentHostState", ""), ".Running")
GroupFailed(R, path) ==
    \E p \in DOMAIN R.world: WHasP(R.world, p, IRedun, "Collection") /\ WHasP(R.world, p, IRedun, "Status")
        /\ HasSub(R.world[p][IRedun]["Status"].v, "Failed")
        /\ \E i \in Ix(R.world[p][IRedun]["Collection"].v): R.world[p][IRedun]["Collection"].v[i] = path
CondFailed(R, H, n) ==
    LET c == R.cfg[n]
        w(i, p, d) == WGet(R.world, c.rp, i, p, d)
        unavail == ~w(IAvail, "Available", TRUE)
    IN /\ ~(c.ignoff /\ ~HostOn(R))
       /\ \/ c.type = "fan" /\ GroupFailed(R, c.rp)
          \/ /\ c.type = "fan" \/ ~unavail \/ c.uaf
             /\ \/ n \in H.disc \/ ~IsFin(w(IValue, "Value", NAN))
                \/ c.type = "margin" /\ w(IValue, "Value", 0) <= 0
                \/ w(ICrit, "CriticalAlarmLow", FALSE) \/ w(ICrit, "CriticalAlarmHigh", FALSE)
                \/ R.var.unc /\ w(IWarn, "WarningAlarmHigh", FALSE)
                \/ unavail \/ ~w(IOper, "Functional", TRUE)
\* (an object that went away no longer publishes anything)
Excepted(R, n) == AlarmLost(R.sens[n]) \/ R.sens[n].miss \/ ~WHas(R.world, R.cfg[n].rp, IValue)
BadC03(s, R, H) ==
    \E n \in DOMAIN R.sens: R.sens[n].kind = "pas" /\ ~Excepted(R, n) /\ R.life.done = "" /\ R.zones # EmptyFun
        /\ WHas(R.world, R.cfg[n].rp, IValue)
        /\ Verdict(R.sens[n], InFailedGroup(R, R.sens[n].path), R.hostOn).f # CondFailed(R, H, n)
BadExt(R, H) ==
    \E n \in DOMAIN R.sens: R.sens[n].kind = "ext"
        /\ (R.sens[n].v # Get(H.ext, n, 0)
            \/ Verdict(R.sens[n], FALSE, R.hostOn).f
                # (~IsFin(Get(H.ext, n, 0)) /\ ~(R.cfg[n].ignoff /\ ~HostOn(R))))

(* C04 *********************************************************************)
Old(R, H, n) == LET t == R.cfg[n].tmo IN t # 0 /\ n \in DOMAIN H.age /\ H.age[n] >= 1000 * t
BadC04(s, R, H) ==
    \E n \in DOMAIN H.age: R.sens[n].tmo # 0
        /\ (TimedOut(R.sens[n], R.sens[n].upd, R.now)) # Old(R, H, n)

(* C02 *********************************************************************)
FailedNow(R, H, n) ==
    (CASE R.sens[n].kind = "pas" -> IF Excepted(R, n) THEN Verdict(R.sens[n], InFailedGroup(R, R.sens[n].path), R.hostOn).f ELSE CondFailed(R, H, n)
       [] R.sens[n].kind = "ext" -> ~IsFin(Get(H.ext, n, 0)) /\ ~(R.cfg[n].ignoff /\ ~HostOn(R))
       [] R.sens[n].kind = "wo" -> ~R.sens[n].fan
       [] OTHER -> FALSE)
    \/ Old(R, H, n)
\* number of thermal passes by now / before
Passed(z, k) == PassesAfter(z.c, k)
ThermNow(G, z, y) == LET k == Get(G.ran, y, 0) IN PassesAfter(z.c, k + 1) # PassesAfter(z.c, k)
Sampled(s, R, G, y) ==
    LET z == R.zones[y]
    IN IF y \in Began(s, R) THEN {z.therms[i]: i \in Ix(z.therms)}
       ELSE IF y \in Ticked(R)
            THEN {z.fans[i]: i \in Ix(z.fans)} \cup (IF ThermNow(G, z, y) THEN {z.therms[i]: i \in Ix(z.therms)} ELSE {})
            ELSE {}
BadC02(s, R, G, H) ==
    \E y \in Running(R):
       LET z == R.zones[y]
           sm == Sampled(s, R, G, y)
           all == {z.fans[i]: i \in Ix(z.fans)} \cup {z.therms[i]: i \in Ix(z.therms)}
           before(n) == IF y \in Began(s, R) THEN n \notin z.missok
                        ELSE n \in DOMAIN s.zones[y].fs
       IN \/ DOMAIN z.fs \ all # {}
          \/ \E n \in all: (n \in DOMAIN z.fs) # (IF n \in sm THEN n \notin z.missok /\ FailedNow(R, H, n) ELSE before(n))

(* C05 *********************************************************************)
ThermRan(s, R, G) == {y \in Running(R): y \in Began(s, R) \/ (y \in Ticked(R) /\ ThermNow(G, R.zones[y], y))}
OutOf(z, i) == IF IsStep(z.c.pids[i]) THEN z.pst[i].out ELSE z.pst[i].lastOut
ProfileOf(z, n) == IF ~z.c.acc \/ ~HasSub(n, "_") THEN n
                   ELSE SubSeq(n, (CHOOSE i \in 1..Len(n): SubSeq(n, i, i) = "_" /\ \A j \in 1..i - 1: SubSeq(n, j, j) # "_") + 1, Len(n))
DemandPids(z) == {i \in Ix(z.c.pids): ~IsFanPid(z.c.pids[i]) /\ ~(IsStep(z.c.pids[i]) /\ z.c.pids[i].sw.ceil)
                                       /\ z.en[z.c.pids[i].name]}
CeilPids(z) == {i \in Ix(z.c.pids): IsStep(z.c.pids[i]) /\ z.c.pids[i].sw.ceil /\ OutOf(z, i) # NAN}
Pos(x) == IF x < 0 THEN 0 ELSE x
RECURSIVE SumOver(_, _)
SumOver(z, I) == IF I = {} THEN 0 ELSE LET i == CHOOSE i \in I: TRUE IN OutOf(z, i) + SumOver(z, I \ {i})
ProfilesIn(z) == {ProfileOf(z, z.c.pids[i].name): i \in DemandPids(z)}
DemandOf(z, pr) == SumOver(z, {i \in DemandPids(z): ProfileOf(z, z.c.pids[i].name) = pr})
AnyInex(z) == \E i \in Ix(z.c.pids): ~IsFanPid(z.c.pids[i]) /\ OutOf(z, i) = INEX
Wanted(z) ==
    LET d == MaxOf({0} \cup {DemandOf(z, pr): pr \in ProfilesIn(z)})
        c == {OutOf(z, i): i \in CeilPids(z)}
        lim == IF c # {} /\ MinOf(c) < d THEN MinOf(c) ELSE d
    IN [raw |-> d, lim |-> lim, v |-> IF lim < z.c.minth THEN z.c.minth ELSE lim]
Tuned(R, y, v) ==
    LET file(p) == IF p \in DOMAIN R.files /\ R.files[p] > 100 THEN R.files[p] ELSE 0
        own == file("/etc/thermal.d/setpoint.zone" \o ToString(y))
        all == file("/etc/thermal.d/setpoint")
    IN IF ~R.opts.tuning THEN v ELSE IF own # 0 THEN Fix(own) ELSE IF all # 0 THEN Fix(all) ELSE v
BadC05(s, R, G) ==
    \/ \E y \in ThermRan(s, R, G):
         LET z == R.zones[y]
             w == Wanted(z)
         IN ~AnyInex(z)
            /\ \/ z.setpt # Tuned(R, y, w.v)
               \/ z.who # (IF w.lim <= z.c.minth THEN "Minimum" ELSE IF w.lim # w.raw THEN "Ceiling" ELSE z.who)
               \/ /\ w.lim > z.c.minth /\ w.lim = w.raw
                  /\ ~\E pr \in ProfilesIn(z): DemandOf(z, pr) = w.raw /\ HasSub(z.who, pr)
    \/ \E y \in Went(s, R) \ ThermRan(s, R, G): R.zones[y].setpt # s.zones[y].setpt

(* C09, C10: the input of a controller ************************************)
SumOf(val(_), K) == FoldLeft(LAMBDA a, k: a + val(k), 0, SetToSeq(K))
ThermWant(z, p) ==
    LET ok == {k \in Ix(p.inputs): IsFin(z.cache[p.inputs[k].n].v)}
        val(k) == LET v == z.cache[p.inputs[k].n].v IN IF p.inputs[k].conv THEN p.inputs[k].zero - v ELSE v
    IN IF \E k \in ok: z.cache[p.inputs[k].n].v = INEX THEN INEX
       ELSE IF ok = {} THEN p.setpoint
       ELSE CASE p.type = "margin" -> MinOf({val(k): k \in ok})
              [] p.type = "powersum" -> SumOf(val, ok)
              [] OTHER -> MaxOf({z.cache[p.inputs[k].n].v: k \in ok})
FanWant(z, p) ==
    LET us == {z.cache[p.inputs[k].n].u: k \in Ix(p.inputs)}
        pos == {u \in us: IsFin(u) /\ u > 0}
    IN IF INEX \in us THEN INEX ELSE IF pos = {} THEN 0 ELSE MinOf(pos)
BadC09(s, R, G) ==
    \E y \in ThermRan(s, R, G): LET z == R.zones[y] IN \E i \in Ix(z.c.pids):
      LET p == z.c.pids[i]
          ok == {k \in Ix(p.inputs): IsFin(z.cache[p.inputs[k].n].v)}
          want == ThermWant(z, p)
          plainlaw == p.c.hpos = 0 /\ p.c.hneg = 0 /\ ~p.c.chk
      IN IsThermPid(p) /\ want # INEX
         /\ \/ plainlaw /\ z.pst[i].lastErr # INEX /\ z.pst[i].lastErr # p.setpoint - want
            \/ ok # {} /\ z.dbg[p.name].in # want
            \/ ok # {} /\ p.type # "powersum" /\ ~\E k \in ok: p.inputs[k].n = z.dbg[p.name].lead
            \/ z.dbg[p.name].out # z.pst[i].lastOut
BadC08(s, R, G) ==
    \E y \in ThermRan(s, R, G): LET z == R.zones[y] IN \E i \in Ix(z.c.pids):
      LET p == z.c.pids[i]
          vals == {z.cache[p.inputs[k].n].v: k \in Ix(p.inputs)} \ {NAN}
          in == IF vals = {} THEN LOWEST ELSE MaxOf(vals)
          \* points up to the first that is no number
          n == MinOf({j \in 1..Len(p.sw.pts) + 1: j = Len(p.sw.pts) + 1 \/ p.sw.pts[j][1] = NAN})
          le == {j \in 1..n - 1: \A m \in 1..j: m = 1 \/ p.sw.pts[m][1] <= in}
      IN IsStep(p) /\ p.sw.hpos = 0 /\ p.sw.hneg = 0 /\ INEX \notin vals
         /\ z.pst[i].out # p.sw.pts[MaxOf(le)][2]
BadC10(s, R, G) ==
    \E y \in Ticked(R): LET z == R.zones[y] IN \E i \in Ix(z.c.pids):
      LET p == z.c.pids[i]
          us == {z.cache[p.inputs[k].n].u: k \in Ix(p.inputs)}
          pos == {u \in us: IsFin(u) /\ u > 0}
          in == IF pos = {} THEN 0 ELSE MinOf(pos)
      IN IsFanPid(p) /\ p.c.hpos = 0 /\ p.c.hneg = 0 /\ ~p.c.chk
         /\ \/ INEX \notin us /\ z.setpt # INEX /\ z.pst[i].lastErr # INEX /\ z.pst[i].lastErr # z.setpt - in
            \* one result for all the controller's fans
            \/ \E k, m \in Ix(p.inputs): z.outc[p.inputs[k].n].p # z.outc[p.inputs[m].n].p

(* C06, C07: the law and the hysteresis around it ***************************)
\* the evaluations of a step: zone, number of the controller, input, set point
Evaluations(s, R, G) ==
    UNION {LET z == R.zones[y] IN
           {[y |-> y, i |-> i, in |-> ThermWant(z, z.c.pids[i]), sp |-> z.c.pids[i].setpoint]:
                i \in {j \in Ix(z.c.pids): IsThermPid(z.c.pids[j]) /\ y \in ThermRan(s, R, G)}}
           \cup {[y |-> y, i |-> i, in |-> FanWant(z, z.c.pids[i]), sp |-> z.setpt]:
                i \in {j \in Ix(z.c.pids): IsFanPid(z.c.pids[j]) /\ y \in Ticked(R)}}: y \in Running(R)}
Plainly(x) == x # INEX /\ IsFin(x) /\ Plain(x)
PstBefore(s, R, x) == IF x.y \in Began(s, R) THEN PidInit ELSE s.zones[x.y].pst[x.i]
Within(v, lo, hi) == lo <= v /\ v <= hi
BadC06(s, R, G) ==
    \E x \in Evaluations(s, R, G):
      LET z == R.zones[x.y]
          c == z.c.pids[x.i].c
          old == PstBefore(s, R, x)
          new == z.pst[x.i]
          known == Plainly(x.in) /\ Plainly(x.sp) /\ Plainly(old.integral) /\ Plainly(old.lastOut) /\ Plainly(old.lastErr)
                   /\ Plainly(new.integral) /\ Plainly(new.lastOut) /\ Plainly(new.lastErr)
          above == x.in > x.sp + c.hpos
          below == x.in < x.sp - c.hneg
          ran == ~c.chk \/ above
          err == new.lastErr
          prop == FMul(err, c.kp)
          step == FMul(FMul(err, c.ki), c.ts)
          itg == IF c.ki = 0 THEN 0 ELSE MinOf({c.imax, MaxOf({c.imin, old.integral + step})})
          der == IF c.kd = 0 THEN 0 ELSE FMul(FDiv(err - old.lastErr, c.ts), c.kd)
          fwd == FMul(x.sp + c.ffo, c.ffg)
          sum == prop + itg + der + fwd
          dn == FMul(c.sneg, c.ts)
          up == FMul(c.spos, c.ts)
          slewed == old.init /\ (c.sneg # 0 \/ c.spos # 0)
          range == c.imin <= c.imax /\ c.omin <= c.omax
      IN known /\ range /\
         IF ran THEN
            \/ err # x.sp - new.lastIn \/ ~new.init
            \/ ~Within(new.integral, c.imin, c.imax)
            \/ INEX \notin {prop, step, der, fwd} /\
               LET lim == MinOf({c.omax, MaxOf({c.omin, sum})}) IN
               IF ~slewed THEN \/ new.lastOut # lim \/ new.integral # MinOf({c.imax, MaxOf({c.imin, itg})})
               ELSE \/ c.spos # 0 /\ new.lastOut > old.lastOut + up
                    \/ c.sneg # 0 /\ new.lastOut < old.lastOut + dn /\ (c.spos = 0 \/ new.lastOut # old.lastOut + up)
                    \* a limit holds the output back from where it belongs, and only a limit does
                    \/ new.lastOut # lim /\ ~(c.spos # 0 /\ new.lastOut = old.lastOut + up)
                                        /\ ~(c.sneg # 0 /\ new.lastOut = old.lastOut + dn)
                    \* the integral carries what the output really was
                    \/ Within(new.lastOut - prop, c.imin, c.imax) /\ new.integral # new.lastOut - prop
         ELSE IF below THEN new.integral # 0 \/ new.lastOut # 0
         ELSE new.lastOut # old.lastOut \/ new.integral # old.integral \/ new.lastErr # old.lastErr
BadC07(s, R, G) ==
    \/ \E x \in Evaluations(s, R, G):
         LET c == R.zones[x.y].c.pids[x.i].c
             old == PstBefore(s, R, x).lastIn
             new == R.zones[x.y].pst[x.i].lastIn
             near == IsFin(old) /\ x.in - old <= c.hpos /\ old - x.in <= c.hneg
         IN Plainly(x.in) /\ Plainly(x.sp) /\ old # INEX /\ new # INEX /\
            IF c.chk THEN new # (IF x.in < x.sp - c.hneg THEN x.sp ELSE x.in)
            ELSE new # (IF near /\ (c.hpos # 0 \/ c.hneg # 0) THEN old ELSE x.in)
    \/ \E y \in ThermRan(s, R, G): LET z == R.zones[y] IN \E i \in Ix(z.c.pids):
         LET p == z.c.pids[i]
             vals == {z.cache[p.inputs[k].n].v: k \in Ix(p.inputs)} \ {NAN}
             in == IF vals = {} THEN LOWEST ELSE MaxOf(vals)
             old == IF y \in Began(s, R) THEN StepInit ELSE s.zones[y].pst[i]
             near == old.out # NAN /\ Plainly(old.last) /\ Plain(in) /\ in - old.last <= p.sw.hpos /\ old.last - in <= p.sw.hneg
             n == MinOf({j \in 1..Len(p.sw.pts) + 1: j = Len(p.sw.pts) + 1 \/ p.sw.pts[j][1] = NAN})
             le == {j \in 1..n - 1: \A m \in 1..j: m = 1 \/ p.sw.pts[m][1] <= in}
         IN IsStep(p) /\ (p.sw.hpos # 0 \/ p.sw.hneg # 0) /\ INEX \notin vals /\ old.last # INEX
            /\ z.pst[i] # (IF near THEN old ELSE [last |-> in, out |-> p.sw.pts[MaxOf(le)][2]])

(* C24: after an evaluation the latest line of the log tells of it *********)
BadC24(s, R, G, H) ==
    R.opts.core /\
    (\/ \E x \in Evaluations(s, R, G):
          LET p == R.zones[x.y].c.pids[x.i]
              new == R.zones[x.y].pst[x.i]
              ran == Plainly(x.in) /\ Plainly(x.sp) /\ (~p.c.chk \/ x.in > x.sp + p.c.hpos)
              cn == CleanName(p.name)
              own == CoreIdx(R, p.name) # {}
          IN own /\ ran /\
             (\/ cn \notin DOMAIN H.line
              \/ LET l == H.line[cn] IN
                 \/ l.age >= 60000
                 \/ INEX \notin {new.lastErr, new.integral, new.lastOut} /\
                    (\/ l.terms[2] # x.sp \/ l.terms[3] # new.lastErr
                     \/ l.terms[15] # new.integral \/ l.terms[16] # new.lastOut))
     \* a line that says nothing new is written after a minute only, or after a start
     \/ \E i \in Ix(R.out.core):
          LET n == R.out.core[i][1] IN
          n \in DOMAIN G.line /\ R.want = <<>> /\ G.line[n].terms = R.out.core[i][3] /\ G.line[n].age + R.now < 60000
          /\ ~\E j \in Ix(R.out.coef): R.out.coef[j][1] = n)

(* C11 *********************************************************************)
Moved(u, v) == u.cache # v.cache \/ u.fs # v.fs \/ u.setpt # v.setpt \/ u.pst # v.pst \/ u.outc # v.outc \/ u.cyc # v.cyc
Writes(R, y) == SelectSeq(R.out.w, LAMBDA w: w.z = y)
BadC11(s, R, G) ==
    \/ \E y \in Went(s, R): R.zones[y].man
         /\ (y \in Ticked(R) \/ Writes(R, y) # <<>> \/ Moved(s.zones[y], R.zones[y]))
    \* the first cycle in automatic mode rewrites every fan
    \/ \E y \in Ticked(R) \cap G.force: \E i \in Ix(R.zones[y].fans):
         LET n == R.zones[y].fans[i]
         IN WriteKind(R.cfg[n].wp) = "dbus" /\ ~\E k \in Ix(R.out.w): R.out.w[k].n = n

(* C12 *********************************************************************)
BadC12(s, R, G) ==
    \/ \E y \in Went(s, R):
         IF s.zones[y].due > R.now THEN R.zones[y].due # s.zones[y].due \/ y \in Ticked(R)
         ELSE R.zones[y].due # s.zones[y].due + R.zones[y].c.fan \/ (y \in Ticked(R)) # ~R.zones[y].man
    \/ \E y \in Began(s, R): R.zones[y].due # R.now + R.zones[y].c.fan

(* C13 *********************************************************************)
Scaled(v, d, lo, hi) ==
    \* lo + d/100 (hi - lo) truncated, where an exact integer may come out nearer to zero
    LET x == d * (hi - lo)
        y == lo * 102400 + x
    IN \/ y >= 0 /\ v * 102400 <= y /\ y < (v + 1) * 102400
       \/ y < 0 /\ (v - 1) * 102400 < y /\ y <= v * 102400
       \/ x # 0 /\ y > 0 /\ y = (v + 1) * 102400
       \/ x # 0 /\ y < 0 /\ y = (v - 1) * 102400
BadC13(s, R, G, H) ==
    \/ \E i \in Ix(R.out.w):
         LET w == R.out.w[i]
             c == R.cfg[w.n]
         IN \/ w.path # c.wp
            \/ ~w.free /\ w.pct >= 0 /\ w.pct # INEX
               /\ ~(IF c.max > 0 THEN Scaled(w.v, w.pct, c.min, c.max) ELSE w.v = w.pct \div 102400)
            \/ w.k = "dbus" /\ w.z \in Ticked(R) /\ w.z \notin G.force /\ Get(G.cmd, w.n, -1) = w.v
    \/ \E y \in Ticked(R): \E i \in Ix(R.zones[y].fans):
         LET n == R.zones[y].fans[i]
         IN WriteKind(R.cfg[n].wp) = "sys" /\ R.cfg[n].wp \notin R.broken
            /\ Cardinality({k \in Ix(R.out.w): R.out.w[k].n = n}) # 1

(* C14: loops that start from a JSON document are the ones it describes ****)
NumIn(j, f, d) == IF f \in DOMAIN j.v THEN j.v[f].v ELSE d
BadC14(R) ==
    LET zs == SeqF(R.json, "zones")
        ps(z) == SeqF(z, "pids")
        only(seq, f) == \A i, k \in Ix(seq): i # k => seq[i].v[f].v # seq[k].v[f].v
        type(p) == StrF(p, "type", "")
    IN R.json.k # "none" /\ R.want # <<>> /\ Running(R) # {} /\ only(zs, "id") /\
       \/ {zs[i].v["id"].v: i \in Ix(zs)} # {Fix(z): z \in DOMAIN R.zones}
       \/ \E i \in Ix(zs): LET z == R.zones[zs[i].v["id"].v \div U] IN
            \/ z.c.minth # zs[i].v["minThermalOutput"].v \/ z.c.fsp # zs[i].v["failsafePercent"].v
            \/ LET f == NumIn(zs[i], "cycleIntervalTimeMS", Fix(100)) IN f >= U /\ z.c.fan # f \div U
            \/ LET f == NumIn(zs[i], "updateThermalsTimeMS", Fix(1000)) IN f >= U /\ z.c.therm # f \div U
            \/ only(ps(zs[i]), "name") /\
               (\/ Len(z.c.pids) # Len(ps(zs[i]))
                \/ \E k \in Ix(ps(zs[i])): LET p == ps(zs[i])[k] IN ~\E m \in Ix(z.c.pids): LET q == z.c.pids[m] IN
                     /\ q.name = p.v["name"].v /\ q.type = type(p)
                     /\ Len(q.inputs) = Len(SeqF(p, "inputs")) /\ \A x \in Ix(q.inputs): q.inputs[x].n = SeqF(p, "inputs")[x].v
                     /\ type(p) \in {"fan", "stepwise"} \/ q.setpoint = p.v["setpoint"].v
                     /\ q.fsp = NumIn(p, "FailSafePercent", 0)
                     /\ type(p) = "stepwise" \/ (q.c.kp = Field(p, "pid").v["proportionalCoeff"].v /\ q.c.omax = Field(p, "pid").v["outLim_max"].v))

(* C15: once nothing is pending, the loops are the ones published **********)
Entries(R, i) == {R.world[p][i]: p \in {q \in DOMAIN R.world: i \in DOMAIN R.world[q]}}
Modes(R) == {b["Current"].v: b \in Entries(R, IThMode)}
InForce(R, b) == Modes(R) = {} \/ "Profiles" \notin DOMAIN b \/ b["Profiles"].v = <<>> \/ \E i \in Ix(b["Profiles"].v): b["Profiles"].v[i] \in Modes(R)
BadC15(R) ==
    LET zs == {b \in Entries(R, IZone): InForce(R, b)}
        cs == {b \in Entries(R, IPid) \cup Entries(R, IStep): InForce(R, b)}
        \* a controller whose sensors are not there has no part
        there(n) == \E p \in DOMAIN R.world: IValue \in DOMAIN R.world[p] /\ EndsWith(p, "/" \o n)
        in(b) == {c \in cs: /\ \E i \in Ix(c["Zones"].v): c["Zones"].v[i] = b["Name"].v
                            /\ \E i \in Ix(c["Inputs"].v): there(c["Inputs"].v[i])}
        used == {b \in zs: \E c \in cs: \E i \in Ix(c["Zones"].v): c["Zones"].v[i] = b["Name"].v}
    IN R.json.k = "none" /\ R.life.done = "" /\ Running(R) # {} /\ R.life.cfgt < 0 /\ R.life.hup < 0 /\ R.life.retry < 0
       /\ (\A b \in zs: "ZoneIndex" \in DOMAIN b) /\
       \/ DOMAIN R.zones # {b["ZoneIndex"].v \div U: b \in used}
       \/ \E b \in used: LET z == R.zones[b["ZoneIndex"].v \div U] IN
            \/ z.c.minth # b["MinThermalOutput"].v \/ z.c.fsp # b["FailSafePercent"].v
            \/ {z.c.pids[i].name: i \in Ix(z.c.pids)} # {c["Name"].v: c \in in(b)}
            \/ \E c \in in(b): \E i \in Ix(z.c.pids): LET q == z.c.pids[i] IN
                 /\ q.name = c["Name"].v
                 /\ IF IsStep(q) THEN q.sw.pts[1] # <<c["Reading"].v[1], c["Output"].v[1]>> \/ q.sw.ceil # (c["Class"].v = "Ceiling")
                    ELSE q.type # c["Class"].v \/ (~IsFanPid(q) /\ q.setpoint # c["SetPoint"].v) \/ q.c.kp # c["PCoefficient"].v

(* C16, C28 ****************************************************************)
Pending(R) == R.life.retry >= 0 \/ R.life.hup >= 0 \/ R.life.cfgt >= 0 \/ R.life.term >= 0
BadC16(s, a, R, G) ==
    \* all loops run or none
    \/ Running(R) # {} /\ Running(R) # DOMAIN R.zones
    \* stopped loops command nothing
    \/ R.out.ticks # <<>> /\ \E y \in Ticked(R): y \notin Running(s) /\ y \notin Running(R)
    \/ \E i \in Ix(R.out.w): R.out.w[i].z \notin Ticked(R) /\ ~R.var.offline
    \* with the off-line option the fans of a zone that goes are left at the failsafe duty
    \/ R.var.offline /\ \E y \in DOMAIN s.zones \ Running(s):
          (DOMAIN R.zones = {} \/ R.want # <<>>)
          /\ \E i \in Ix(s.zones[y].fans):
               LET n == s.zones[y].fans[i]
                   duty == IF DOMAIN s.zones[y].fs = {} THEN s.zones[y].c.fsp ELSE Floor(s.zones[y])
                   mine == SelectSeq(R.out.w, LAMBDA w: w.n = n)
               IN WriteKind(s.cfg[n].wp) = "sys" /\ (mine = <<>> \/ Head(mine).pct # duty)
    \* a reload that fell due leaves loops running afresh or a retry pending
    \/ R.life.done = "" /\ R.json.k # "none" /\ Running(R) = {} /\ ~Pending(R)
    \* a loop starts with every sensor counted as failed until its first good sample
    \* (stated by C02), in automatic mode, with every controller enabled
    \/ \E y \in Began(s, R): R.zones[y].man \/ \E n \in DOMAIN R.zones[y].en: ~R.zones[y].en[n]
    \* a hang-up is acted on one second after the last one
    \/ G.hup >= 0 /\ G.hup <= R.now /\ ~(\E i \in Ix(a): a[i].op = "hup") /\ s.life.done = ""
         /\ R.life.done = "" /\ Running(s) # {} /\ Running(R) # {} /\ R.want = <<>>
    \/ G.hup >= 0 /\ G.hup < R.now /\ ~(\E i \in Ix(a): a[i].op = "hup") /\ s.life.done = ""
    \* termination ends with success
    \/ s.life.term >= 0 /\ R.now >= s.life.term /\ R.life.done # "exit0" /\ R.life.term = -1
    \* retries are ten seconds apart
    \/ R.life.retry >= 0 /\ R.life.retry # s.life.retry /\ R.life.retry # R.now + 10000
BadC28(s, R) ==
    LET unread(n) == LET c == R.cfg[n] IN
            \/ ReadKind(c.rp) = "pas" /\ ~WHas(R.world, c.rp, IValue) /\ ~R.var.missing
            \/ c.type = "fan" /\ WriteKind(c.wp) = "dbus" /\ ~WHas(R.world, c.wp, IPwm)
    IN R.want # <<>> /\ R.life.done = ""
       /\ \/ (\E n \in DOMAIN R.cfg: unread(n)) /\ (R.zones # EmptyFun \/ R.life.retry # R.now + 10000 \/ (R.out.w # <<>> /\ ~R.var.offline))
          \/ R.var.missing /\ \E y \in DOMAIN R.zones: \E n \in {R.zones[y].therms[i]: i \in Ix(R.zones[y].therms)}:
                ReadKind(R.cfg[n].rp) = "pas" /\ ~WHas(R.world, R.cfg[n].rp, IValue)
                /\ n \notin R.zones[y].missok /\ n \notin DOMAIN R.zones[y].fs

(* C17 *********************************************************************)
BadC17(s, R, G, H) ==
    \E y \in DOMAIN R.zones:
        LET mine == SelectSeq(R.out.lg, LAMBDA m: m[1] = y)
            prior == IF R.want # <<>> \/ y \notin DOMAIN G.said THEN {} ELSE G.said[y]
            \* messages since the last one that reported leaving failsafe
            RECURSIVE dup(_, _)
            dup(q, said) == IF q = <<>> THEN FALSE
                            ELSE LET m == Head(q)
                                 IN IF m[2] = "leave" THEN dup(Tail(q), {})
                                    ELSE <<m[3], m[4]>> \in said \/ dup(Tail(q), said \cup {<<m[3], m[4]>>})
        IN \/ Len(H.msgs[y]) > LogLimit
           \/ Len(R.zones[y].fl.ts) < LogLimit /\ dup(mine, prior)

(* C18 *********************************************************************)
BadC18(s, a, R) ==
    \E i \in Ix(a): a[i].op = "ipmi" /\ Len(a) = 1 /\
       LET b == a[i].bytes
           r == R.res[Len(R.res)]
           zid == b[2]
           known == Len(b) >= 2 /\ zid \in DOMAIN s.zones
           others == {z \in DOMAIN s.zones: ~(Len(b) >= 2 /\ z = zid)}
           same == \A z \in others: R.zones[z].man = s.zones[z].man
           self == (known /\ (Len(b) < 3 \/ b[1] # 1)) => R.zones[zid].man = s.zones[zid].man
       IN s.life.done = "" /\ R.want = <<>> /\ Running(s) = Running(R) /\
          (~same \/ ~self
          \/ CASE Len(b) < 2 \/ b[1] > 2 \/ (b[1] = 1 /\ Len(b) < 3) -> r.cc = 0
               [] b[1] \in {0, 2} /\ ~known -> r.cc = 0
               [] b[1] = 0 -> r.cc # 0 \/ r.reply # <<IF s.zones[zid].man THEN 1 ELSE 0>>
               [] b[1] = 2 -> r.cc # 0 \/ r.reply # <<IF DOMAIN s.zones[zid].fs # {} THEN 1 ELSE 0>>
               [] OTHER -> r.cc # 0 \/ (known /\ R.zones[zid].man # (b[3] # 0)))

(* C19: a zone goes on as if it were alone ********************************)
Alone(X, y) == [X EXCEPT !.zones = [z \in DOMAIN @ \cap {y} |-> @[z]]]
BadC19(s, e, R) ==
    R.want = <<>> /\ R.life.done = "" /\ \E y \in Went(s, R):
        LET L == AdvanceIn(Alone(s, y), e, EmptyFun)
        IN y \notin DOMAIN L.zones
           \/ [L.zones[y] EXCEPT !.fl = 0] # [R.zones[y] EXCEPT !.fl = 0]
           \/ Writes(L, y) # Writes(R, y)

(* C20 *********************************************************************)
BadC20(s, a, R) ==
    \E y \in Went(s, R): \E n \in DOMAIN R.zones[y].en:
        LET sets == SelectSeq(a, LAMBDA o: o.op = "setprop" /\ o.iface = IEnable /\ o.path = PidPath(y, n) /\ o.s = "b")
        IN R.zones[y].en[n] # (IF sets = <<>> THEN s.zones[y].en[n] ELSE sets[Len(sets)].v)

(* C21 *********************************************************************)
BadC21(s, R) == R.life.done = "" /\ R.hostOn # HostOn(R)

(* C23 *********************************************************************)
BadC23(s, R) ==
    R.opts.log /\
    LET zs == Ticked(R)
        row(y) == SelectSeq(R.out.rows, LAMBDA r: r.z = y)
    IN \/ {R.out.rows[i].z: i \in Ix(R.out.rows)} # zs
       \/ \E y \in zs: Len(row(y)) # 1 \/
            LET r == row(y)[1] IN
            \/ r.t # R.now \/ r.sp # s.zones[y].setpt \/ r.who # s.zones[y].who
            \/ r.fs # (DOMAIN R.zones[y].fs # {})
            \/ Len(r.fans) # 4 * Len(R.zones[y].fans) \/ Len(r.therms) # 2 * Len(R.zones[y].therms)
            \/ \E i \in Ix(R.zones[y].fans): r.fans[4 * i - 1] # s.zones[y].outc[R.zones[y].fans[i]].p

(* C26 *********************************************************************)
Pow10(k) == IF k = 0 THEN 1 ELSE IF k = 1 THEN 10 ELSE IF k = 2 THEN 100 ELSE 1000
BadC26(s, R, G, H) ==
    \E y \in Running(R): \E n \in Sampled(s, R, G, y):
        LET c == R.cfg[n]
            x == R.zones[y].cache[n]
        IN R.sens[n].kind = "pas" /\ n \notin H.disc /\ n \in DOMAIN H.val /\ IsFin(H.val[n]) /\ ~R.sens[n].miss
           /\ R.sens[n].scale \in -3..3
           /\ LET k == R.sens[n].scale
                  raw == H.val[n]
                  sc(v) == IF k >= 0 THEN v * Pow10(k) ELSE v \div Pow10(-k)
                  exact(v) == k >= 0 \/ v % Pow10(-k) = 0
                  mn == WGet(R.world, c.rp, IValue, "MinValue", 0)
                  mx == WGet(R.world, c.rp, IValue, "MaxValue", 0)
              IN exact(raw) /\ (x.u # sc(raw)
                    \/ IF c.ignmm \/ mx <= 0 \/ mx <= mn THEN x.v # x.u
                       ELSE x.v # INEX /\ x.v * (sc(mx) - sc(mn)) # (x.u - sc(mn)) * 1024)

(* all of them *************************************************************)
Broken(s, a, e, R, G, H) ==
    If(BadC01(s, R), {"C01"}) \cup If(BadC02(s, R, G, H), {"C02"}) \cup If(BadC03(s, R, H), {"C03"})
    \cup If(BadC04(s, R, H), {"C04"}) \cup If(BadC05(s, R, G), {"C05"}) \cup If(BadC08(s, R, G), {"C08"})
    \cup If(BadC09(s, R, G), {"C09"}) \cup If(BadC10(s, R, G), {"C10"})
    \cup If(BadC11(s, R, G), {"C11"}) \cup If(BadC12(s, R, G), {"C12"}) \cup If(BadC13(s, R, G, H), {"C13"})
    \cup If(BadC16(s, a, R, G), {"C16"}) \cup If(BadC17(s, R, G, H), {"C17"}) \cup If(BadC18(s, a, R), {"C18"})
    \cup If(BadC19(s, e, R), {"C19"}) \cup If(BadC20(s, a, R), {"C20"}) \cup If(BadC21(s, R), {"C21"})
    \cup If(BadExt(R, H), {"C22"}) \cup If(BadC23(s, R), {"C23"}) \cup If(BadC26(s, R, G, H), {"C26"})
    \cup If(BadC28(s, R), {"C28"}) \cup If(BadC06(s, R, G), {"C06"}) \cup If(BadC07(s, R, G), {"C07"})
    \cup If(BadC24(s, R, G, H), {"C24"}) \cup If(BadC14(R), {"C14"}) \cup If(BadC15(R), {"C15"})
=============================================================================

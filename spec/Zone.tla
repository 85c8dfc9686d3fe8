------------------------------- MODULE Zone -------------------------------
(***************************************************************************)
(* The control loop of a zone.                                             *)
(*                                                                         *)
(* All operators transform the daemon state S (a record):                  *)
(*   now    time in ms                     var   build options             *)
(*   opts   [log, tuning, debug, core,     cfg   sensor configurations     *)
(*           nolog: core logs that cannot be created]                      *)
(*   sens   sensor name -> state (Sensors)                                 *)
(*   zones  zone id -> zone state          files path -> integer content   *)
(*   hostOn, red (failed group -> its members), wold (sensor -> last command)  *)
(*   ow     observed commands not yet explained: path -> seq of integers   *)
(*   core   PID name -> core log state     ocl   observed core log lines  *)
(*   out    what the step makes visible                                    *)
(* A zone configuration is                                                 *)
(*   [minth, fsp, acc, fan, therm, pids: seq of PID configurations]        *)
(* and a PID configuration                                                 *)
(*   [name, type, inputs: seq of [n, conv, zero, miss], setpoint, fsp,     *)
(*    c: coefficients, sw: table].                                         *)
(***************************************************************************)
EXTENDS Pid, Sensors, TLC

ThermTypes == {"temp", "margin", "power", "powersum"}
IsFanPid(p)   == p.type = "fan"
IsThermPid(p) == p.type \in ThermTypes
IsStep(p)     == p.type = "stepwise"

NoOut == [w |-> <<>>, lg |-> <<>>, rows |-> <<>>, core |-> <<>>, coef |-> <<>>,
          tr |-> <<>>, sp |-> <<>>, ticks |-> <<>>, known |-> {}]

Names(ins) == [i \in 1..Len(ins) |-> ins[i].n]
Concat(ss) == FoldLeft(LAMBDA a, b: a \o b, <<>>, ss)

FanInputs(zc) == Concat(MapSeq(LAMBDA p: IF IsFanPid(p) THEN Names(p.inputs) ELSE <<>>, zc.pids))
ThermInputs(zc) ==
    Dedup(Concat(MapSeq(LAMBDA p: IF IsThermPid(p) \/ IsStep(p) THEN Names(p.inputs) ELSE <<>>,
                        zc.pids)))
Controlling(zc) == SelectSeq(zc.pids, LAMBDA p: IsThermPid(p) \/ IsStep(p))
FanPids(zc) == SelectSeq(zc.pids, IsFanPid)

\* the failsafe percentage of a sensor: the largest of the controllers using it
SensorPct(zc) ==
    LET users(n) == {i \in 1..Len(zc.pids): \E k \in 1..Len(zc.pids[i].inputs): zc.pids[i].inputs[k].n = n}
        all == UNION {{zc.pids[i].inputs[k].n: k \in 1..Len(zc.pids[i].inputs)}: i \in 1..Len(zc.pids)}
    IN [n \in all |-> LET vals == {zc.pids[i].fsp: i \in users(n)}
                      IN IF INEX \in vals THEN INEX
                         ELSE CHOOSE v \in vals: \A w \in vals: w <= v]

MissOk(zc) ==
    UNION {{zc.pids[i].inputs[k].n: k \in {j \in 1..Len(zc.pids[i].inputs): zc.pids[i].inputs[j].miss}}:
           i \in 1..Len(zc.pids)}

\* messages recorded per second (models use a smaller number)
LogLimit == 20

FlInit(st) == [cur |-> st, seen |-> {}, ts |-> <<>>]

\* a zone as built
NewZone(zc) ==
    [c |-> zc, fans |-> FanInputs(zc), therms |-> ThermInputs(zc),
     sfp |-> SensorPct(zc), missok |-> MissOk(zc),
     man |-> FALSE, rw |-> FALSE, cyc |-> 0, due |-> -1,
     cache |-> EmptyFun, outc |-> EmptyFun, fs |-> EmptyFun,
     setpt |-> 0, who |-> "", prev |-> "",
     pst |-> [i \in 1..Len(zc.pids) |-> IF IsStep(zc.pids[i]) THEN StepInit ELSE PidInit],
     fprev |-> [i \in 1..Len(zc.pids) |-> TRUE],
     en |-> [n \in {Controlling(zc)[i].name: i \in 1..Len(Controlling(zc))} |-> TRUE],
     dbg |-> [n \in {Controlling(zc)[i].name: i \in 1..Len(Controlling(zc))} |->
                  [lead |-> "", in |-> 0, out |-> 0]],
     fl |-> FlInit(FALSE)]

InFs(z) == DOMAIN z.fs # {}

\* the failsafe duty in force
FsPct(z) ==
    LET vals == {z.fs[n]: n \in DOMAIN z.fs}
    IN IF vals = {} THEN z.c.fsp
       ELSE IF INEX \in vals THEN INEX
       ELSE LET m == CHOOSE v \in vals: \A w \in vals: w <= v
            IN IF m = 0 THEN z.c.fsp ELSE m

(* failsafe messages *******************************************************)
LogTo(S, zid, st, loc, why) ==
    LET fl  == S.zones[zid].fl
        ts  == SelectSeq(fl.ts, LAMBDA t: S.now - t < 1000)
        was == fl.cur
        seen == IF st # fl.cur THEN {} ELSE fl.seen
        key == <<loc, why>>
        quiet == Len(ts) >= LogLimit \/ key \in seen
    IN IF quiet
       THEN [S EXCEPT !.zones[zid].fl = [cur |-> st, seen |-> seen, ts |-> ts]]
       ELSE [S EXCEPT !.zones[zid].fl = [cur |-> st, seen |-> seen \cup {key},
                                         ts |-> Append(ts, S.now)],
                      !.out.lg = IF st THEN Append(@, <<zid, "in", loc, why>>)
                                 ELSE IF was THEN Append(@, <<zid, "leave", loc, why>>)
                                 ELSE @]

\* messages of a sensor go to every zone that uses it as a thermal input
LogSensor(S, name, msgs) ==
    LET zs == {z \in DOMAIN S.zones: \E i \in 1..Len(S.zones[z].therms): S.zones[z].therms[i] = name}
        RECURSIVE go(_, _, _)
        go(T, todo, m) == IF todo = {} THEN T
                          ELSE LET z == CHOOSE z \in todo: TRUE
                               IN go(LogTo(T, z, m[1], name, m[2]), todo \ {z}, m)
    IN FoldLeft(LAMBDA T, m: go(T, zs, m), S, msgs)

(* sampling ****************************************************************)
SensorRead(S, name) ==
    LET s == S.sens[name]
    IN IF s.kind = "sys" THEN LET v == Fix(Get(S.files, s.path, 0)) IN [v |-> v, u |-> v, upd |-> S.now]
       ELSE IF s.kind = "wo" THEN [v |-> NAN, u |-> NAN, upd |-> S.now]
       ELSE [v |-> s.v, u |-> s.u, upd |-> s.upd]

MarkMissing(S, zid, name) ==
    LET z == S.zones[zid]
    IN IF name \in z.missok
       THEN LogTo(S, zid, InFs(z), name, "The sensor is missing but is acceptable.")
       ELSE LogTo([S EXCEPT !.zones[zid].fs =
                      Put(@, name, IF z.sfp[name] = 0 THEN z.c.fsp ELSE z.sfp[name])],
                  zid, TRUE, name, "The sensor is missing.")

InFailedGroup(S, path) == \E g \in DOMAIN S.red: path \in S.red[g]

SampleOne(S, zid, name) ==
    LET r  == SensorRead(S, name)
        s  == S.sens[name]
        vd == Verdict(s, InFailedGroup(S, s.path), S.hostOn)
        S1 == [S EXCEPT !.zones[zid].cache = Put(@, name, [v |-> r.v, u |-> r.u])]
        S2 == LogSensor(S1, name, vd.msg)
    IN IF vd.f THEN MarkMissing(S2, zid, name)
       ELSE IF TimedOut(s, r.upd, S.now) THEN
            LET S3 == MarkMissing(S2, zid, name)
            IN LogTo(S3, zid, InFs(S3.zones[zid]), name, "The sensor has timed out.")
       ELSE IF name \in DOMAIN S.zones[zid].fs THEN
            LET S3 == [S2 EXCEPT !.zones[zid].fs = Drop(@, name)]
            IN LogTo(S3, zid, InFs(S3.zones[zid]), name, "The sensor has recovered.")
       ELSE S2

Sample(S, zid, names) == FoldLeft(LAMBDA T, n: SampleOne(T, zid, n), S, names)

\* the log columns of a fan: reading and previous command
FanColumns(S, zid, names) ==
    Concat(MapSeq(LAMBDA n: LET r == SensorRead(S, n)
                                o == S.zones[zid].outc[n]
                            IN <<r.v, r.u, o.p, o.r>>, names))

(* core PID log ************************************************************)
\* S.core: sequence of [name, clean, last (0: none), ctx]
CoreIdx(S, name) == {i \in 1..Len(S.core): S.core[i].name = name}

CoreStart(S, name, c, st) ==
    IF ~S.opts.core \/ name = "" THEN S
    ELSE LET cn == CleanName(name)
             ex == CoreIdx(S, name)
         IN IF cn = "" \/ cn \in SetOf(S.opts.nolog) THEN S
            ELSE IF ex = {} /\ \E i \in 1..Len(S.core): S.core[i].clean = cn THEN S
            ELSE LET row == <<cn, S.now,
                              <<c.ts, st.integral, st.lastOut, c.kp, c.ki, c.kd, c.ffo, c.ffg,
                                c.imin, c.imax, c.omin, c.omax, c.sneg, c.spos, c.hpos, c.hneg>> >>
                     S1 == [S EXCEPT !.out.coef = Append(@, row)]
                 IN IF ex = {}
                    THEN [S1 EXCEPT !.core = Append(@, [name |-> name, clean |-> cn,
                                                        last |-> -1, ctx |-> <<>>])]
                    ELSE [S1 EXCEPT !.core[CHOOSE i \in ex: TRUE].last = -1]

\* Where inexact values leave open whether a line differs from the last one,
\* the observation decides whether there is one.
CoreDiffers(a, b) == Len(a) = Len(b) /\ \E i \in 1..Len(a): ~Inexact(a[i], b[i]) /\ a[i] # b[i]
CoreLine(S, name, terms) ==
    LET ex == CoreIdx(S, name)
    IN IF ex = {} THEN S
       ELSE LET i == CHOOSE j \in ex: TRUE
                e == S.core[i]
                must == e.last = -1 \/ S.now - e.last >= 60000 \/ CoreDiffers(e.ctx, terms)
                open == ~must /\ (e.ctx # terms \/ \E k \in 1..Len(terms): terms[k] = INEX)
                mine(rows) == SelectSeq(rows, LAMBDA r: r[1] = e.clean)
                obs == mine(S.ocl)
                k == Len(mine(S.out.core)) + 1
                seen == open /\ k <= Len(obs) /\ obs[k][2] = S.now
                        /\ (Len(obs[k][3]) # Len(terms) \/ \A j \in 1..Len(terms): EqLog(terms[j], obs[k][3][j]))
                tm == IF seen /\ Len(obs[k][3]) # Len(terms) THEN obs[k][3] ELSE terms
            IN IF must \/ seen
               THEN [S EXCEPT !.core[i].last = S.now, !.core[i].ctx = terms,
                              !.out.core = Append(@, <<e.clean, S.now, tm>>)]
               ELSE S

\* evaluate PID number i of the zone; returns [S, out]
EvalPid(S, zid, i, in, sp) ==
    LET p  == S.zones[zid].c.pids[i]
        st == S.zones[zid].pst[i]
        r  == PidStep(p.c, st, in, sp)
        S1 == IF r.terms # <<>> /\ ~st.init THEN CoreStart(S, p.name, p.c, st) ELSE S
        S2 == IF r.terms # <<>> THEN CoreLine(S1, p.name, r.terms) ELSE S1
    IN [S |-> [S2 EXCEPT !.zones[zid].pst[i] = r.st], out |-> r.out]

(* thermal pass ************************************************************)
\* pass accumulator: [S, dem: profile -> demand, max, who, ceil: seq]
Profile(zc, name) ==
    IF ~zc.acc THEN name
    ELSE LET k == Find(name, "_") IN IF k = 0 THEN name ELSE DropFront(name, k)

Demand(acc, zid, name, val) ==
    LET z == acc.S.zones[zid]
    IN IF ~z.en[name] THEN acc
       ELSE LET pr  == Profile(z.c, name)
                old == Get(acc.dem, pr, 0)
                nw  == IF z.c.acc THEN FAdd(old, val)
                       ELSE IF val = INEX \/ old = INEX THEN INEX
                       ELSE IF Lt(old, val) THEN val ELSE old
                up  == IF nw = INEX \/ acc.max = INEX THEN FALSE ELSE Lt(acc.max, nw)
            IN [acc EXCEPT !.dem = Put(@, pr, nw),
                           !.max = IF nw = INEX \/ @ = INEX THEN INEX ELSE IF up THEN nw ELSE @,
                           !.who = IF nw = INEX \/ acc.max = INEX THEN "?" ELSE IF up THEN pr ELSE @]

RunTherm(acc, zid, i) ==
    LET S == acc.S
        z == S.zones[zid]
        p == z.c.pids[i]
    IN IF IsStep(p) THEN
          LET in == SwInput(MapSeq(LAMBDA x: z.cache[x.n].v, p.inputs))
              st == SwStep(p.sw, z.pst[i], in)
              a1 == [acc EXCEPT !.S.zones[zid].pst[i] = st]
          IN IF p.sw.ceil THEN [a1 EXCEPT !.ceil = Append(@, st.out)]
             ELSE Demand(a1, zid, p.name, st.out)
       ELSE
          LET in == ThermInput(p.type,
                       MapSeq(LAMBDA x: [n |-> x.n, v |-> z.cache[x.n].v,
                                         conv |-> x.conv, zero |-> x.zero], p.inputs),
                       p.setpoint)
              S1 == IF in.dbg THEN [S EXCEPT !.zones[zid].dbg[p.name].lead = in.lead,
                                             !.zones[zid].dbg[p.name].in = in.v]
                    ELSE S
              r  == EvalPid(S1, zid, i, in.v, p.setpoint)
              a1 == Demand([acc EXCEPT !.S = r.S], zid, p.name, r.out)
          IN [a1 EXCEPT !.S.zones[zid].dbg[p.name].out = r.out]

\* set point files: a number above 100 replaces the set point
TuneFrom(files, path, sp) ==
    IF path \in DOMAIN files /\ files[path] > 100 THEN Fix(files[path]) ELSE sp

SetpointFile == "/etc/thermal.d/setpoint"

Arbitrate(acc, zid) ==
    LET z    == acc.S.zones[zid]
        zc   == z.c
        ceil == IF acc.ceil = <<>> THEN NAN
                ELSE FoldLeft(LAMBDA a, b: FMin(a, b), Head(acc.ceil), Tail(acc.ceil))
        hit  == acc.ceil # <<>> /\ ~Inexact(ceil, acc.max) /\ Lt(ceil, acc.max)
        unk  == acc.max = INEX \/ ceil = INEX
        m1   == IF unk THEN INEX ELSE IF hit THEN ceil ELSE acc.max
        w1   == IF unk THEN "?" ELSE IF hit THEN "Ceiling" ELSE acc.who
        w2   == IF ~zc.acc \/ unk \/ hit THEN w1
                ELSE Join(SelectSeq(MapSeq(LAMBDA p: p.name, Controlling(zc)),
                                    LAMBDA n: w1 = "" \/ HasSub(n, w1)), " + ")
        low  == ~unk /\ Ge(zc.minth, m1)
        m2   == IF low THEN zc.minth ELSE m1
        w3   == IF low THEN "Minimum" ELSE w2
        chg  == ~low /\ w3 # z.prev
        S1   == [acc.S EXCEPT !.zones[zid].prev = IF chg THEN w3 ELSE @,
                              !.zones[zid].who = w3,
                              !.out.sp = IF chg THEN Append(@, <<zid, m2, w3>>) ELSE @]
        m3   == IF S1.opts.tuning
                THEN TuneFrom(S1.files, SetpointFile \o ".zone" \o ToString(zid),
                              TuneFrom(S1.files, SetpointFile, m2))
                ELSE m2
    IN [S1 EXCEPT !.zones[zid].setpt = m3]

ThermPass(S, zid) ==
    LET S1  == Sample(S, zid, S.zones[zid].therms)
        ids == SelectSeq([i \in 1..Len(S.zones[zid].c.pids) |-> i],
                         LAMBDA i: ~IsFanPid(S.zones[zid].c.pids[i])
                                   /\ (IsThermPid(S.zones[zid].c.pids[i]) \/ IsStep(S.zones[zid].c.pids[i])))
        acc == FoldLeft(LAMBDA a, i: RunTherm(a, zid, i),
                        [S |-> S1, dem |-> EmptyFun, max |-> 0, who |-> "", ceil |-> <<>>], ids)
    IN Arbitrate(acc, zid)

(* fan pass ****************************************************************)
\* Command one fan.  Where the arithmetic leaves two candidates (or none is
\* known) the observation picks; it can pick nothing else.
Command(S, zid, name, pct, force) ==
    LET conf == S.cfg[name]
        kind == WriteKind(conf.wp)
        old  == S.wold[name]
        cand == IF conf.max > 0 THEN DutyRaw(pct, conf.min, conf.max) ELSE RatioRaw(pct)
        q    == Get(S.ow, conf.wp, <<>>)
        free == cand = {}
        ok(o) == (free \/ o \in cand) /\ (kind = "sys" \/ force \/ o # old)
        top  == IF free THEN old ELSE CHOOSE v \in cand: \A w \in cand: w <= v
        usehd == (free \/ Cardinality(cand) > 1) /\ q # <<>> /\ ok(Head(q))
        silent == kind = "dbus" /\ ~force /\ ~usehd
                  /\ (free \/ old \in cand)
        val  == IF usehd THEN Head(q) ELSE IF silent THEN old ELSE top
        \* a file that cannot be opened takes no value, which goes unnoticed
        wr   == kind # "none" /\ ~silent /\ ~(kind = "sys" /\ conf.wp \in S.broken)
        S1   == [S EXCEPT !.zones[zid].outc =
                    Put(@, name, [p |-> pct, r |-> IF kind = "dbus" THEN (IF free /\ ~usehd THEN INEX ELSE Fix(val))
                                                   ELSE Fix(-1)])]
    IN IF ~wr THEN S1
       ELSE [S1 EXCEPT !.wold = Put(@, name, val),
                       !.ow = IF q = <<>> THEN @ ELSE [@ EXCEPT ![conf.wp] = Tail(@)],
                       !.out.w = Append(@, [z |-> zid, n |-> name, k |-> kind, path |-> conf.wp,
                                            v |-> val, pct |-> pct, free |-> free])]

\* the duty a fan PID's result becomes
Duty(S, zid, computed) ==
    LET z == S.zones[zid]
        f == FsPct(z)
    IN IF S.opts.tuning \/ ~InFs(z) THEN computed
       ELSE IF S.var.strict THEN f
       ELSE FMax(computed, f)

RunFan(S, zid, i) ==
    LET z  == S.zones[zid]
        p  == z.c.pids[i]
        in == FanInput(MapSeq(LAMBDA x: z.cache[x.n].u, p.inputs))
        r  == EvalPid(S, zid, i, in, z.setpt)
        d  == Duty(r.S, zid, r.out)
        cur == InFs(z)
        tr == ~S.opts.tuning /\ z.fprev[i] # cur
        S1 == IF S.opts.tuning THEN r.S
              ELSE [r.S EXCEPT !.zones[zid].fprev[i] = cur,
                               !.out.tr = IF tr /\ ~S.opts.debug
                                          THEN Append(@, <<zid, IF cur THEN "in" ELSE "out", d>>) ELSE @]
    IN FoldLeft(LAMBDA T, x: Command(T, zid, x.n, d, z.rw), S1, p.inputs)

FanPass(S, zid) ==
    LET ids == SelectSeq([i \in 1..Len(S.zones[zid].c.pids) |-> i],
                         LAMBDA i: IsFanPid(S.zones[zid].c.pids[i]))
        S1  == FoldLeft(LAMBDA T, i: RunFan(T, zid, i), S, ids)
    IN [S1 EXCEPT !.zones[zid].rw = FALSE]

(* the loop ****************************************************************)
\* one due time of a zone
Tick(S, zid) ==
    LET z  == S.zones[zid]
        nx == z.due + z.c.fan
    IN IF z.man THEN [S EXCEPT !.zones[zid].due = nx]
       ELSE
        LET fc == IF S.opts.log THEN FanColumns(S, zid, z.fans) ELSE <<>>
            S1 == Sample(S, zid, z.fans)
            tc == IF S.opts.log
                  THEN Concat(MapSeq(LAMBDA n: <<S1.zones[zid].cache[n].v, S1.zones[zid].cache[n].u>>,
                                     z.therms))
                  ELSE <<>>
            th == z.cyc >= z.c.therm
            S2 == IF th THEN ThermPass(S1, zid) ELSE S1
            S3 == FanPass(S2, zid)
            row == [z |-> zid, t |-> S.now, sp |-> z.setpt, who |-> z.who, fans |-> fc,
                    therms |-> tc, fs |-> InFs(S3.zones[zid])]
        IN [S3 EXCEPT !.zones[zid].cyc = (IF th THEN z.cyc - z.c.therm ELSE z.cyc) + z.c.fan,
                      !.zones[zid].due = nx,
                      !.out.rows = IF S.opts.log THEN Append(@, row) ELSE @,
                      !.out.ticks = Append(@, zid)]

\* start of the loop: everything counts as failed, then a thermal pass
StartLoop(S, zid) ==
    LET z  == S.zones[zid]
        S1 == [S EXCEPT !.zones[zid].cache =
                    [n \in {z.fans[i]: i \in 1..Len(z.fans)} \cup {z.therms[i]: i \in 1..Len(z.therms)}
                        |-> [v |-> NAN, u |-> NAN]],
                 !.zones[zid].outc =
                    [n \in {z.fans[i]: i \in 1..Len(z.fans)} |-> [p |-> NAN, r |-> NAN]]]
        S2 == FoldLeft(LAMBDA T, n: MarkMissing(T, zid, n), S1, z.fans \o z.therms)
        S3 == ThermPass(S2, zid)
    IN [S3 EXCEPT !.zones[zid].due = S.now + z.c.fan, !.zones[zid].cyc = 0]

\* Run every zone that is due, in the order of due times; zones due at the
\* same time run in any order, here the order given by rank: zone -> number.
DueZones(S) == {z \in DOMAIN S.zones: S.zones[z].due >= 0 /\ S.zones[z].due <= S.now}
RECURSIVE TickDueIn(_, _)
TickDueIn(S, rank) ==
    LET due == DueZones(S)
    IN IF due = {} THEN S
       ELSE LET z == CHOOSE z \in due: \A y \in due:
                        S.zones[z].due < S.zones[y].due
                        \/ (S.zones[z].due = S.zones[y].due /\ Get(rank, z, z) <= Get(rank, y, y))
            IN TickDueIn(Tick(S, z), rank)
TickDue(S) == TickDueIn(S, [z \in DOMAIN S.zones |-> z])

SetManual(S, zid, b) ==
    [S EXCEPT !.zones[zid].man = b, !.zones[zid].rw = IF b THEN @ ELSE TRUE]
===========================================================================

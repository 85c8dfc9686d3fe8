----------------------------- MODULE SwampdTrace -----------------------------
(***************************************************************************)
(* Trace validation: behaviours recorded from the real daemon are checked  *)
(* step by step against the specification.  The specification is           *)
(* deterministic up to the choices the observation resolves, so validation *)
(* computes, for every recorded step, what the daemon had to do, and the   *)
(* set of properties an observation contradicts.                           *)
(* After each step the observable part of the state is taken from the      *)
(* observation, so that one deviation is reported where it arises.         *)
(***************************************************************************)
EXTENDS Machine, TLCExt, Json, IOUtils

TraceFile == IOEnv.SWAMPD_TRACES
Traces == JsonDeserialize(TraceFile)

VARIABLES tid, l, S, nbad
vars == <<tid, l, S, nbad>>

T == Traces[tid]
Step(i) == T.steps[i]


(* the core PID log: sequences of <<name, time, columns>> ******************)
CoreRowSame(a, b) == a[1] = b[1] /\ a[2] = b[2] /\ Len(a[3]) = Len(b[3])
                     /\ \A i \in 1..Len(a[3]): EqLog(a[3][i], b[3][i])
CoreOf(rows, n) == SelectSeq(rows, LAMBDA r: r[1] = n)
CoreNames(rows) == {rows[i][1]: i \in 1..Len(rows)}
CoreDiff(p, o) == \E n \in CoreNames(p) \cup CoreNames(o):
                     LET a == CoreOf(p, n)
                         b == CoreOf(o, n)
                     IN Len(a) # Len(b) \/ \E i \in 1..Len(a): ~CoreRowSame(a[i], b[i])
CoreSame(R, e) == ~CoreDiff(R.out.core, e.core) /\ ~CoreDiff(R.out.coef, e.coef)
\* controllers of the same name in different zones share a log
SameNames(R) == \E y, z \in DOMAIN R.zones: y # z /\
                   \E i \in 1..Len(R.zones[y].c.pids): \E k \in 1..Len(R.zones[z].c.pids):
                      CleanName(R.zones[y].c.pids[i].name) = CleanName(R.zones[z].c.pids[k].name)

CoreBad(R, e) ==
    LET of(rows, n) == CoreOf(rows, n)
        ns(rows) == CoreNames(rows)
        lines == CoreDiff(R.out.core, e.core)
        coefs == CoreDiff(R.out.coef, e.coef)
        lenbad == \E n \in ns(R.out.core) \cup ns(e.core): Len(of(R.out.core, n)) # Len(of(e.core, n))
        \* same number of lines: input/set point right, terms wrong
        terms == ~lenbad /\ \E n \in ns(R.out.core): LET a == of(R.out.core, n)
                                                        b == of(e.core, n)
                    IN \E i \in 1..Len(a): EqLog(a[i][3][1], b[i][3][1]) /\ EqLog(a[i][3][2], b[i][3][2])
                                           /\ ~CoreRowSame(a[i], b[i])
        inputs == ~lenbad /\ \E n \in ns(R.out.core): LET a == of(R.out.core, n)
                                                         b == of(e.core, n)
                    IN \E i \in 1..Len(a): ~(EqLog(a[i][3][1], b[i][3][1]) /\ EqLog(a[i][3][2], b[i][3][2]))
    IN IF R.fuzzy THEN {} ELSE If(lines \/ coefs, {"C24"})
       \cup If(terms, {"C06"}) \cup If(inputs, {"C10", "C09", "C07"})
       \cup If(R.out.coef # <<>> /\ coefs, {"C14"})

(* Zones that share a sensor also share its failsafe messages, so that the  *)
(* order in which zones due at the same time run shows in the messages.     *)
SharedZ(Z, y, z) == \E i \in 1..Len(Z[y].therms): \E k \in 1..Len(Z[z].therms): Z[y].therms[i] = Z[z].therms[k]
Shared(R) == \E y, z \in DOMAIN R.zones: y # z /\ SharedZ(R.zones, y, z)

Group(ws) == Queue(ws)
LifeDueAt(s, t) == \E d \in {s.life.hup, s.life.cfgt, s.life.retry}: d >= 0 /\ d <= t
WritesLike(X, e) == /\ DOMAIN Group(X.out.w) = DOMAIN Group(e.w)
                    /\ \A p \in DOMAIN Group(e.w): Len(Group(X.out.w)[p]) = Len(Group(e.w)[p])
After(s, e) ==
    /\ LifeDueAt(s, e.t) /\ DueZones([s EXCEPT !.now = e.t]) # {}
    /\ ~WritesLike(AdvanceBy(s, e, EmptyFun, FALSE), e)
    /\ WritesLike(AdvanceBy(s, e, EmptyFun, TRUE), e)
Advance(s, e) ==
    LET after == After(s, e)
        R0 == AdvanceBy(s, e, EmptyFun, after)
        ids == DOMAIN R0.zones
        n == Cardinality(ids)
        order == (\E z \in ids: z \notin DOMAIN s.zones \/ s.zones[z].due < 0) \/ Cardinality(DueZones([s EXCEPT !.now = e.t])) > 1
        of(q, z) == SelectSeq(q, LAMBDA m: m[1] = z)
        good(X) == /\ \A z \in ids: of(X.out.lg, z) = of(e.lg, z)
                   /\ X.opts.core => CoreSame(X, e)
        logs(X) == <<[z \in DOMAIN X.zones |-> X.zones[z].fl], X.core>>
    IN IF n < 2 \/ ~order \/ ~(Shared(R0) \/ (R0.opts.core /\ SameNames(R0))) \/ R0.fuzzy THEN R0
       ELSE IF n > 3 THEN [R0 EXCEPT !.fuzzy = TRUE]
       ELSE LET ranks == {f \in [ids -> 1..n]: \A y, z \in ids: y # z => f[y] # f[z]}
                ok == SelectSeq(SetToSeq({AdvanceBy(s, e, r, after): r \in ranks}), good)
            IN IF ok = <<>> THEN [R0 EXCEPT !.fuzzy = Len(R0.out.ticks) > n]
               ELSE [ok[1] EXCEPT !.fuzzy = Cardinality({logs(ok[i]): i \in 1..Len(ok)}) > 1]

(* comparing ***************************************************************)

Multi(R) == If(Cardinality(DOMAIN R.zones) > 1, {"C19"})

Owners(s, p) == {z \in DOMAIN s.zones: \E i \in 1..Len(s.zones[z].fans):
                    s.zones[z].fans[i] \in DOMAIN s.cfg /\ s.cfg[s.zones[z].fans[i]].wp = p}
HasHyst(z) == \E i \in 1..Len(z.c.pids): LET p == z.c.pids[i]
                IN p.c.hpos # 0 \/ p.c.hneg # 0 \/ p.c.chk \/ p.sw.hpos # 0 \/ p.sw.hneg # 0
HasStep(z) == \E i \in 1..Len(z.c.pids): IsStep(z.c.pids[i])
Disabled(z) == \E n \in DOMAIN z.en: ~z.en[n]

CoreOk(R, e) == ~R.opts.core \/ (R.out.core # <<>> /\ Len(R.out.core) = Len(e.core)
                                  /\ \A i \in 1..Len(e.core): \E k \in 1..Len(R.out.core):
                                        R.out.core[k][1] = e.core[i][1])

\* writes
WriteBad(s, R, e) ==
    LET pred == Group(R.out.w)
        obs  == Group(e.w)
        diff == {p \in DOMAIN pred \cup DOMAIN obs: Get(pred, p, <<>>) # Get(obs, p, <<>>)}
        why(p) ==
          LET po == Get(pred, p, <<>>)
              ob == Get(obs, p, <<>>)
              before == Owners(s, p)
              after == Owners(R, p)
              ow == before \cup after
              ticked == {z \in ow: \E i \in 1..Len(R.out.ticks): R.out.ticks[i] = z}
              zs == {R.zones[z]: z \in after \cap DOMAIN R.zones}
          IN IF R.life.done # "" \/ after # before \/ Running(R) \cap after # Running(s) \cap before
             THEN {"C16"} \cup If(s.var.offline, {"C16"}) \cup If(before = {} /\ after = {}, {"C13", "C28"})
                  \cup If(ob # <<>> /\ s.zones = EmptyFun, {"C28"})
             ELSE IF ow = {} THEN {"C13", "C16", "C28"}
             ELSE IF ticked = {} THEN
                  If(\E z \in zs: z.man, {"C11"})
                  \cup If(ow \cap Running(R) = {}, {"C16"})
                  \cup If(~\E z \in zs: z.man, {"C12"}) \cup Multi(R)
             ELSE \* a cycle ran, and commanded something else
                  Multi(R)
                  \cup If(\E z \in before: s.zones[z].rw, {"C11"})
                  \cup If(Len(po) # Len(ob), {"C10", "C13"} \cup If(ob = <<>>, {"C12", "C11"}))
                  \cup If(Len(po) = Len(ob) \/ s.var.strict,
                          {"C10", "C13", "C06"}
                          \cup If(\E z \in zs: InFs(z) \/ s.var.strict, {"C01"})
                          \cup If(\E z \in zs: ~InFs(z), {"C01"})
                          \cup If(\E z \in zs: HasHyst(z), {"C07"})
                          \cup If(s.opts.tuning, {"C25"}))
                  \cup If(Len(po) # Len(ob) /\ \E z \in before: InFs(s.zones[z]) # InFs(R.zones[z]), {"C01"})
    IN UNION {why(p): p \in diff}

\* an independent statement of C01 on what was observed
FloorBad(s, R, e) ==
    LET zs == {z \in DOMAIN R.zones: \E i \in 1..Len(e.zones): e.zones[i].id = z /\ e.zones[i].fs}
        bad(z) ==
          LET pct == FsPct(R.zones[z])
          IN ~R.opts.tuning /\ pct # INEX /\ R.life.done = ""
             /\ (\E i \in 1..Len(R.out.ticks): R.out.ticks[i] = z)
             /\ \E k \in 1..Len(R.zones[z].fans):
                  LET n == R.zones[z].fans[k]
                      conf == R.cfg[n]
                      min == IF conf.max > 0 THEN DutyRaw(pct, conf.min, conf.max) ELSE RatioRaw(pct)
                  IN n \in DOMAIN R.cfg /\ min # {} /\ conf.wp # "" /\ conf.max >= conf.min
                     /\ Cardinality(Owners(R, conf.wp)) = 1
                     /\ \E i \in 1..Len(e.w): e.w[i].path = conf.wp
                          /\ (\A j \in i + 1..Len(e.w): e.w[j].path # conf.wp)
                          /\ (\A m \in min: e.w[i].v < m \/ (R.var.strict /\ e.w[i].v # m))
    IN If(\E z \in zs: bad(z), {"C01"})

SensBlame(R, n) ==
    IF n \notin DOMAIN R.sens THEN {}
    ELSE LET s == R.sens[n]
         IN If(s.kind = "pas", {"C03"}) \cup If(s.tmo # 0, {"C04"}) \cup If(s.ign, {"C21"})
            \cup If(s.kind = "ext", {"C22"}) \cup If(InFailedGroup(R, s.path) \/ (s.fan /\ \E p \in DOMAIN R.world: WHas(R.world, p, IRedun)), {"C27"})
            \cup If(s.miss, {"C28"})

ZoneBad(s, R, e, o) ==
    IF o.id \notin DOMAIN R.zones THEN {"C16", "C14", "C15"}
    ELSE
    LET z  == R.zones[o.id]
        z0 == IF o.id \in DOMAIN s.zones THEN s.zones[o.id] ELSE z
        obsf == IF "failing" \in DOMAIN o THEN o.failing ELSE z.fs
        of == DOMAIN obsf
        df == (of \ DOMAIN z.fs) \cup (DOMAIN z.fs \ of)
        cd == {n \in DOMAIN z.cache: n \notin DOMAIN o.cache
                 \/ ~Eq(z.cache[n].v, o.cache[n][1]) \/ ~Eq(z.cache[n].u, o.cache[n][2])}
        kinds == {R.sens[n].kind: n \in cd \cap DOMAIN R.sens}
        idle == ~\E i \in 1..Len(R.out.ticks): R.out.ticks[i] = o.id
        moved == idle /\ o.id \in DOMAIN s.zones
        \* a thermal pass that was missed or one too many: thermal readings are
        \* still the old ones, or new ones where none was due
        td == {n \in cd: ~\E k \in 1..Len(z.fans): z.fans[k] = n}
        tc == {n \in DOMAIN z.cache: (~\E k \in 1..Len(z.fans): z.fans[k] = n)
                 /\ n \in DOMAIN z0.cache /\ z.cache[n] # z0.cache[n]}
        pass == td # {} /\ o.id \in DOMAIN s.zones
                /\ (tc = {} \/ \A n \in tc: n \in DOMAIN o.cache
                                        /\ Eq(z0.cache[n].v, o.cache[n][1]) /\ Eq(z0.cache[n].u, o.cache[n][2]))
    IN If(pass, {"C12"}) \cup If(cd # {}, If("ext" \in kinds, {"C22"}) \cup If("pas" \in kinds, {"C26", "C03"})
                   \cup If("sys" \in kinds, {"C26"}) \cup If(moved, {"C11", "C12"}))
       \cup If(df # {}, {"C02"} \cup UNION {SensBlame(R, n): n \in df} \cup Multi(R)
                        \cup If(Disabled(z), {"C20"}) \cup If(moved, {"C11", "C12"}))
       \cup If(o.fs # (of # {}), {"C02"})
       \cup If(\E n \in of \cap DOMAIN z.fs: ~Eq(z.fs[n], obsf[n]), {"C01"})
       \cup If(df = {} /\ ~Eq(FsPct(z), o.fspct), {"C01"})
       \cup If(~Eq(z.setpt, o.setpt),
               {"C05"} \cup If(R.opts.tuning, {"C25"}) \cup If(Disabled(z), {"C20"})
               \cup If(HasStep(z), {"C08"}) \cup If(HasHyst(z), {"C07"}) \cup {"C06", "C09"}
               \cup Multi(R) \cup If(moved, {"C11", "C12"}))
       \cup If("man" \in DOMAIN o /\ o.man # z.man, {"C11"} \cup Multi(R)
               \cup If(\E i \in 1..Len(e.ops): e.ops[i].op = "ipmi", {"C18"}))
       \cup If("who" \in DOMAIN o /\ z.who # "?" /\ o.who # z.who,
               {"C05", "C23"} \cup If(Disabled(z), {"C20"}) \cup If(HasStep(z), {"C08"}))

PidBad(s, R, e, o) ==
    IF o.z \notin DOMAIN R.zones THEN {"C16", "C14", "C15"}
    ELSE IF o.name \notin DOMAIN R.zones[o.z].dbg THEN {"C14", "C15", "C23"}
    ELSE LET z == R.zones[o.z]
             d == z.dbg[o.name]
             p == z.c.pids[CHOOSE i \in 1..Len(z.c.pids): z.c.pids[i].name = o.name]
         IN IF IsStep(p) THEN If(o.en # z.en[o.name], {"C20"})
            ELSE If(~Eq(d.in, o.in) \/ (d.lead # "?" /\ o.lead # d.lead), {"C23", "C09"} \cup Multi(R))
                 \cup If(~Eq(d.out, o.out), {"C23", "C06", "C09"} \cup If(HasHyst(z), {"C07"}) \cup Multi(R)
                           \cup If(Disabled(z), {"C20"}))
                 \cup If(o.en # z.en[o.name], {"C20"})
                 \cup If(~Eq(p.setpoint, o.sp), {"C23", "C14", "C15"})
                 \cup If(o.cls # CASE p.type = "temp" -> "Temperature" [] p.type = "margin" -> "Margin"
                                   [] p.type = "power" -> "Power" [] p.type = "powersum" -> "PowerSum"
                                   [] OTHER -> o.cls, {"C23"})

\* every zone (and only those) is there
ZonesBad(s, R, e) ==
    LET seen == {e.zones[i].id: i \in 1..Len(e.zones)}
    IN If(R.life.done = "" /\ seen # DOMAIN R.zones,
          {"C16"} \cup If(e.cause = "boot" \/ s.zones = EmptyFun \/ DOMAIN R.zones # DOMAIN s.zones,
                          {"C14", "C15", "C28"}))

SeqEqSet(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a):
                     Cardinality({k \in 1..Len(a): a[k] = a[i]}) = Cardinality({k \in 1..Len(b): b[k] = a[i]})

LogBad(R, e) ==
    IF R.fuzzy THEN {}
    ELSE If(~SeqEqSet(R.out.lg, e.lg), {"C17"})

RowBad(R, e) ==
    LET same(a, b) ==
          /\ a.z = b.z /\ a.t = b.t /\ EqLog(a.sp, b.sp) /\ (a.who = "?" \/ a.who = b.who)
          /\ Len(a.fans) = Len(b.fans) /\ Len(a.therms) = Len(b.therms) /\ a.fs = b.fs
          /\ \A i \in 1..Len(a.fans): IF i % 4 = 3 THEN EqPct(a.fans[i], b.fans[i]) ELSE EqLog(a.fans[i], b.fans[i])
          /\ \A i \in 1..Len(a.therms): EqLog(a.therms[i], b.therms[i])
        of(rows, z) == SelectSeq(rows, LAMBDA r: r.z = z)
        zs == {R.out.rows[i].z: i \in 1..Len(R.out.rows)} \cup {e.rows[i].z: i \in 1..Len(e.rows)}
        bad(z) == LET a == of(R.out.rows, z)
                      b == of(e.rows, z)
                  IN Len(a) # Len(b) \/ \E i \in 1..Len(a): ~same(a[i], b[i])
    IN If(R.opts.log /\ T.logged /\ \E z \in zs: bad(z), {"C23"})

Header(z) ==
    <<"epoch_ms", "setpt", "requester">>
    \o Concat(MapSeq(LAMBDA f: <<f, f \o "_raw", f \o "_pwm", f \o "_pwm_raw">>, z.fans))
    \o Concat(MapSeq(LAMBDA t: <<t, t \o "_raw">>, z.therms)) \o <<"failsafe">>
HeaderBad(R, e) ==
    If(\E i \in 1..Len(e.hdr): e.hdr[i].z \notin DOMAIN R.zones
          \/ e.hdr[i].cols # Header(R.zones[e.hdr[i].z]), {"C23"})

ResultBad(R, e) ==
    IF Len(R.res) # Len(e.res) THEN UNION {R.res[i].ids: i \in 1..Len(R.res)}
    ELSE UNION {IF ResOk(R.res[i], e.res[i]) THEN {} ELSE R.res[i].ids: i \in 1..Len(R.res)}

ExtBad(R, e) ==
    LET seen == {e.ext[i].path: i \in 1..Len(e.ext)}
        pred == {R.sens[n].path: n \in {m \in DOMAIN R.sens: R.sens[m].kind = "ext"}}
    IN If(R.life.done = "" /\ seen # pred, {"C22"})
       \cup If(\E i \in 1..Len(e.ext): \E n \in DOMAIN R.sens:
                 R.sens[n].kind = "ext" /\ R.sens[n].path = e.ext[i].path /\ ~Eq(R.sens[n].v, e.ext[i].v), {"C22"})

NextBad(R, e) ==
    LET nx == NextWake(R)
        life == {R.life.retry, R.life.hup, R.life.cfgt, R.life.term}
    IN IF R.life.done # "" \/ e.end # "" \/ ~("next" \in DOMAIN e) THEN {}
       ELSE IF nx = -1 \/ nx > e.t + 290000 THEN If(e.next < e.t + 290000, {"C12", "C16"})
       ELSE If(e.next # nx, If(nx \in life \/ DOMAIN R.zones = {}, {"C16", "C28", "C15"})
                            \cup If(DOMAIN R.zones # {}, {"C12"}) \cup Multi(R))

EndBad(R, e) ==
    CASE e.end \in {"crash", "hang", "livelock"} -> {"CRASH"}
      [] e.end # R.life.done ->
            {"C16"} \cup If(R.life.done = "exit1" \/ e.end = "exit1", {"C14"})
      [] OTHER -> {}

ConfBad(R, e) ==
    IF R.want = <<>> \/ R.seen = <<>> \/ R.life.done # "" THEN {}
    ELSE LET c == R.seen[1]
             w == R.want[1]
             sensbad == DOMAIN w.sens # DOMAIN c.sens
                        \/ \E n \in DOMAIN w.sens: \E f \in DOMAIN w.sens[n]: c.sens[n][f] # w.sens[n][f]
             dbus == R.json.k = "none"
         IN If(sensbad \/ (w.bad # (c.nozone > 0)) \/ (~w.bad /\ ~SameZones(w.zones, c.zones, FALSE)), {IF dbus THEN "C15" ELSE "C14"})

Compare(s, R, e) ==
    LET base == EndBad(R, e) \cup WriteBad(s, R, e)
        full == UNION {ZoneBad(s, R, e, e.zones[i]): i \in 1..Len(e.zones)}
                \cup UNION {PidBad(s, R, e, e.pids[i]): i \in 1..Len(e.pids)}
                \cup ZonesBad(s, R, e) \cup FloorBad(s, R, e)
                \cup LogBad(R, e) \cup RowBad(R, e) \cup HeaderBad(R, e) \cup CoreBad(R, e)
                \cup ResultBad(R, e) \cup ExtBad(R, e) \cup NextBad(R, e) \cup ConfBad(R, e)
    IN IF e.end \in {"crash", "hang", "livelock"} THEN EndBad(R, e)
       ELSE IF e.end # "" THEN base \cup RowBad(R, e) \cup LogBad(R, e)
       ELSE base \cup full

(* taking over what was observed *******************************************)
Resync(R, e) ==
    LET zobs(z) == {i \in 1..Len(e.zones): e.zones[i].id = z}
        one(z) ==
          IF zobs(z) = {} THEN R.zones[z]
          ELSE LET o == e.zones[CHOOSE i \in zobs(z): TRUE]
                   zz == R.zones[z]
               IN [zz EXCEPT !.cache = [n \in DOMAIN @ |-> IF n \in DOMAIN o.cache
                                          THEN [v |-> o.cache[n][1], u |-> o.cache[n][2]] ELSE @[n]],
                             !.fs = IF ~("failing" \in DOMAIN o) \/ DOMAIN @ = DOMAIN o.failing THEN @ ELSE o.failing,
                             !.setpt = IF @ = INEX \/ ~Eq(@, o.setpt) THEN o.setpt ELSE @,
                             !.man = IF "man" \in DOMAIN o THEN o.man ELSE @,
                             !.who = IF "who" \in DOMAIN o THEN o.who ELSE @]
    IN [R EXCEPT !.zones = [z \in DOMAIN @ |-> one(z)]]

(* findings that are listed, by the history that leads to them *************)
KnownHist(s, R) ==
    If(\E n \in DOMAIN R.sens: AlarmLost(R.sens[n])
          /\ \E z \in DOMAIN R.zones: (\E i \in 1..Len(R.zones[z].therms): R.zones[z].therms[i] = n)
                                       \/ (\E i \in 1..Len(R.zones[z].fans): R.zones[z].fans[i] = n),
       {"C03:partial-alarm-message"})

\* for diagnosis: what was expected
Explain(R, e) ==
    [w |-> R.out.w, lg |-> R.out.lg, ticks |-> R.out.ticks, rows |-> R.out.rows, res |-> R.res,
     next |-> NextWake(R), core |-> R.out.core, coef |-> R.out.coef,
     conf |-> IF R.want = <<>> \/ R.seen = <<>> THEN <<>>
              ELSE LET w == R.want[1]
                       c == R.seen[1]
                   IN <<w.bad, {<<n, Get(w.sens, n, "-"), Get(c.sens, n, "-")>>: n \in {m \in DOMAIN w.sens \cup DOMAIN c.sens:
                                   ~(m \in DOMAIN w.sens /\ m \in DOMAIN c.sens /\ \A f \in DOMAIN w.sens[m]: c.sens[m][f] = w.sens[m][f])}},
                        {<<z, Get(w.zones, z, "-"), Get(c.zones, z, "-")>>: z \in {y \in DOMAIN w.zones \cup DOMAIN c.zones:
                            ~(y \in DOMAIN w.zones /\ y \in DOMAIN c.zones /\ SameZone(w.zones[y], c.zones[y], FALSE))}}>>,
     life |-> R.life, hostOn |-> R.hostOn, red |-> R.red,
     sens |-> [n \in {m \in DOMAIN R.sens: \E z \in DOMAIN R.zones: m \in DOMAIN R.zones[z].fs}
                  \cup UNION {IF "failing" \in DOMAIN e.zones[i] THEN DOMAIN e.zones[i].failing ELSE {}: i \in 1..Len(e.zones)}
                |-> Get(R.sens, n, "-")],
     zones |-> [z \in DOMAIN R.zones |-> LET y == R.zones[z] IN
                  [fs |-> y.fs, cache |-> y.cache, setpt |-> y.setpt, who |-> y.who, man |-> y.man, fspct |-> FsPct(y),
                   en |-> y.en, dbg |-> y.dbg]]]

Init == /\ tid \in 1..Len(Traces) /\ l = 0 /\ nbad = 0
        /\ S = Boot(T)

Next ==
    /\ l < Len(T.steps) /\ nbad < 6
    /\ tid' = tid /\ l' = l + 1
    /\ LET e == Step(l + 1)
           R == Advance(S, e)
           b == Compare(S, R, e)
           k == KnownHist(S, R) \ S.known
       IN /\ S' = [Resync(R, e) EXCEPT !.known = @ \cup k]
          /\ nbad' = nbad + (IF b = {} THEN 0 ELSE 1)
          /\ (b = {} \/ PrintT(<<"BAD", tid, l + 1, b>>))
          /\ (b = {} \/ ~("SWAMPD_DEBUG" \in DOMAIN IOEnv) \/ PrintT(<<"DBG", Explain(R, e)>>))
          /\ (k = {} \/ PrintT(<<"KNOWN", tid, l + 1, k>>))
          /\ (l + 1 < Len(T.steps) \/ PrintT(<<"DONE", tid, l + 1>>))

Spec == Init /\ [][Next]_vars
View == <<tid, l, nbad>>

===========================================================================

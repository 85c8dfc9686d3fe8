------------------------------- MODULE Daemon -------------------------------
(***************************************************************************)
(* Life cycle of the daemon: start, retry, reload, termination, and the    *)
(* reaction to everything that reaches it from outside.                    *)
(*                                                                         *)
(* Further fields of S (see Zone):                                         *)
(*   life  [retry, hup, cfgt, term: due times or -1, done: "" or how the   *)
(*          process ended, built: names of sensors that exist]             *)
(*   world published properties            faults  planned call failures   *)
(*   json  the JSON configuration ([k |-> "none"]: none), bad (unparsable) *)
(*   rank  order of names                  redon   redundancy watched      *)
(*   watch configuration objects on D-Bus are watched                      *)
(*   hint  a configuration as observed, where the order in which the       *)
(*         implementation meets things is unspecified ([z: id -> zone])    *)
(*   want  the configuration taken over in this step, or <<>>              *)
(***************************************************************************)
EXTENDS Zone, JsonConfig

NoLife == [retry |-> -1, hup |-> -1, cfgt |-> -1, term |-> -1, done |-> ""]

(* planned failures of D-Bus calls *****************************************)
\* faults: sequence of [m, path, arg, skip, left]; a call uses the first match
FaultIdx(F, m, path, arg) ==
    {i \in 1..Len(F): F[i].m = m /\ F[i].path \in {"", path} /\ F[i].arg \in {"", arg} /\ F[i].left # 0}
\* [F, hit]
TakeFault(F, m, path, arg) ==
    LET ix == FaultIdx(F, m, path, arg)
    IN IF ix = {} THEN [F |-> F, hit |-> FALSE]
       ELSE LET i == CHOOSE i \in ix: \A k \in ix: i <= k
            IN IF F[i].skip > 0 THEN [F |-> [F EXCEPT ![i].skip = @ - 1], hit |-> FALSE]
               ELSE [F |-> [F EXCEPT ![i].left = @ - 1], hit |-> TRUE]

MapperPath == "/xyz/openbmc_project/object_mapper"
SortInts(set) == SetToSortSeq(set, LAMBDA a, b: a < b)

(* building ****************************************************************)
KnownType(t) == t \in {"fan", "temp", "margin", "power", "powersum"}

StatusFailed(s) == HasSub(s, "Failed")
Groups(world) == {q \in DOMAIN world: WHas(world, q, IRedun)}
MembersOf(world, p) ==
    LET cl == world[p][IRedun]["Collection"].v IN {cl[i]: i \in 1..Len(cl)}

\* First use of a D-Bus sensor starts watching the redundancy groups.  A group
\* that cannot be read is passed over.
WatchRedundancy(B) ==
    IF B.S.redon THEN B
    ELSE LET f == TakeFault(B.S.faults, "GetSubTree", MapperPath, "/")
             R0 == [F |-> f.F, red |-> EmptyFun]
             group(R, p) ==
                 LET g == TakeFault(R.F, "GetAll", p, IRedun)
                     W == B.S.world
                 IN [F |-> g.F,
                     red |-> IF ~g.hit /\ WHasP(W, p, IRedun, "Collection") /\ WHasP(W, p, IRedun, "Status")
                                /\ StatusFailed(W[p][IRedun]["Status"].v)
                             THEN Put(R.red, p, MembersOf(W, p)) ELSE R.red]
             R == IF f.hit THEN R0 ELSE FoldLeft(group, R0, SortByRank(Groups(B.S.world), B.S.rank))
         IN [B EXCEPT !.S.redon = TRUE, !.S.faults = R.F, !.S.red = R.red]

\* one sensor: B = [S, ok, sens, wold]
BuildSensor(B, n) ==
    IF ~B.ok THEN B
    ELSE
    LET conf == B.S.cfg[n]
        kind == ReadKind(conf.rp)
        B0   == IF kind = "pas" THEN WatchRedundancy(B) ELSE B
        F0   == B0.S.faults
        W    == B0.S.world
        g    == IF kind = "pas" THEN TakeFault(F0, "GetObject", MapperPath, conf.rp) ELSE [F |-> F0, hit |-> FALSE]
        here == WHas(W, conf.rp, IValue) /\ ~g.hit
        ga   == IF kind = "pas" /\ here THEN TakeFault(g.F, "GetAll", conf.rp, IValue)
                ELSE [F |-> g.F, hit |-> FALSE]
        readok == IF kind # "pas" THEN TRUE
                  ELSE IF here THEN ~ga.hit
                  ELSE B0.S.var.missing
        wk   == IF conf.type = "fan" THEN WriteKind(conf.wp) ELSE "none"
        gw   == IF readok /\ wk = "dbus" THEN TakeFault(ga.F, "GetObject", MapperPath, conf.wp)
                ELSE [F |-> ga.F, hit |-> FALSE]
        writeok == wk # "dbus" \/ (WHas(W, conf.wp, IPwm) /\ ~gw.hit)
        W2   == IF here THEN W ELSE Drop(W, conf.rp)
        s    == StartSensor(conf, IF kind = "pas" THEN W2 ELSE W, B0.S.now, B0.S.var)
        known == KnownType(conf.type)
    IN [B0 EXCEPT !.S.faults = gw.F,
                  !.ok = (kind # "pas" \/ known) /\ readok /\ writeok,
                  !.sens = IF known THEN Put(@, n, s) ELSE @,
                  !.wold = Put(@, n, -1)]

Buildable(zc) == \A i \in 1..Len(zc.pids):
    (IsFanPid(zc.pids[i]) \/ IsThermPid(zc.pids[i]) \/ IsStep(zc.pids[i])) => zc.pids[i].inputs # <<>>


\* With the off-line option, fan loops that are given up before they start
\* still leave their fans at the failsafe duty.
GiveUp(S, zid, zc) ==
    LET n == CHOOSE k \in 0..Len(zc.pids):
                 /\ \A i \in 1..k: ~((IsFanPid(zc.pids[i]) \/ IsThermPid(zc.pids[i]) \/ IsStep(zc.pids[i]))
                                      /\ zc.pids[i].inputs = <<>>)
                 /\ k = Len(zc.pids) \/ zc.pids[k + 1].inputs = <<>>
        part == [zc EXCEPT !.pids = SubSeq(zc.pids, 1, n)]
        S1 == [S EXCEPT !.zones = Put(@, zid, NewZone(part))]
        S2 == FoldLeft(LAMBDA T, x: Command(T, zid, x, zc.fsp, FALSE), S1, FanInputs(part))
    IN [S2 EXCEPT !.zones = Drop(@, zid)]

\* Build sensors and zones of a configuration and start the loops; on failure
\* try again in ten seconds.
Launch(S, cfg) ==
    LET S0 == [S EXCEPT !.cfg = cfg.sens, !.want = <<cfg>>]
        B  == FoldLeft(BuildSensor, [S |-> S0, ok |-> TRUE, sens |-> EmptyFun, wold |-> EmptyFun],
                       SortByRank(DOMAIN cfg.sens, S.rank))
        ids == SortInts(DOMAIN cfg.zones)
        zok == ~cfg.bad /\ \A z \in DOMAIN cfg.zones: Buildable(cfg.zones[z])
        fail == [B.S EXCEPT !.life.retry = S.now + 10000, !.sens = EmptyFun]
        S1 == [B.S EXCEPT !.sens = B.sens, !.wold = B.wold]
        firstbad == CHOOSE k \in 1..Len(ids) + 1:
                       /\ \A i \in 1..k - 1: Buildable(cfg.zones[ids[i]])
                       /\ k = Len(ids) + 1 \/ ~Buildable(cfg.zones[ids[k]])
    IN IF ~B.ok THEN fail
       ELSE IF ~zok THEN
            LET F == [S1 EXCEPT !.life.retry = S.now + 10000]
            IN IF ~S.var.offline THEN F
               ELSE FoldLeft(LAMBDA T, i: IF i > Len(ids) THEN T ELSE GiveUp(T, ids[i], cfg.zones[ids[i]]),
                             F, [i \in 1..firstbad |-> i])
       ELSE IF DOMAIN cfg.zones = {} THEN [S1 EXCEPT !.life.done = "exit1"]
       ELSE LET S2 == [S1 EXCEPT !.zones = [z \in DOMAIN cfg.zones |-> NewZone(cfg.zones[z])]]
            IN FoldLeft(StartLoop, S2, SetToSortSeq(DOMAIN cfg.zones, LAMBDA a, b: Get(S.zrank, a, a) < Get(S.zrank, b, b)))

(* stopping ****************************************************************)
Running(S) == {z \in DOMAIN S.zones: S.zones[z].due >= 0}
Halted(S)  == [S EXCEPT !.zones = [z \in DOMAIN S.zones |-> [S.zones[z] EXCEPT !.due = -1]]]

\* leaving a zone: with the off-line option its fans go to the failsafe duty
LeaveZone(S, zid) ==
    IF ~S.var.offline THEN S
    ELSE LET z == S.zones[zid]
         IN FoldLeft(LAMBDA T, n: Command(T, zid, n, FsPct(z), z.rw), S, z.fans)

Cleared(S) ==
    LET S1 == FoldLeft(LeaveZone, S, SortInts(DOMAIN S.zones))
    IN [S1 EXCEPT !.zones = EmptyFun]

\* Stop the loops.  While a loop's timer is still being cancelled the zones
\* cannot be removed yet, and stopping has to be tried again.
Stop(S) ==
    IF Running(S) # {} THEN [S |-> Halted(S), busy |-> TRUE]
    ELSE [S |-> Cleared(S), busy |-> FALSE]

(* restarting **************************************************************)
\* DbusBuild gives the configuration read from D-Bus; it is a parameter here:
\* [S, res: "ok" | "wait" | "retry", cfg]
Restart(S, DbusBuild(_)) ==
    LET st == Stop(S)
    IN IF st.busy THEN [st.S EXCEPT !.life.retry = S.now + 10000]
       ELSE IF st.S.json.k # "none" THEN
            IF st.S.json.k = "bad" \/ ~FileOk(st.S.json)
            THEN [st.S EXCEPT !.life.done = "exit1"]
            ELSE Launch(st.S, FromJson(st.S.json, st.S.rank))
       ELSE LET d == DbusBuild(st.S)
            IN CASE d.res = "wait"  -> d.S
                 [] d.res = "retry" -> [d.S EXCEPT !.life.retry = S.now + 10000]
                 [] OTHER -> Launch(d.S, d.cfg)

Terminate(S) ==
    LET st == Stop(S)
    IN IF st.busy THEN [st.S EXCEPT !.life.term = S.now + 50]
       ELSE [st.S EXCEPT !.life.done = "exit0"]

\* life cycle timers that are due
LifeDue(S, DbusBuild(_)) ==
    LET d(t) == t >= 0 /\ t <= S.now
        a(T) == IF d(T.life.hup) /\ T.life.done = ""
                THEN Restart([T EXCEPT !.life.hup = -1], DbusBuild) ELSE T
        b(T) == IF d(T.life.cfgt) /\ T.life.done = ""
                THEN Restart([T EXCEPT !.life.cfgt = -1], DbusBuild) ELSE T
        c(T) == IF d(T.life.retry) /\ T.life.done = ""
                THEN Restart([T EXCEPT !.life.retry = -1], DbusBuild) ELSE T
        e(T) == IF d(T.life.term) /\ T.life.done = ""
                THEN Terminate([T EXCEPT !.life.term = -1]) ELSE T
    IN e(c(b(a(S))))

Timers(S) == {S.zones[z].due: z \in DOMAIN S.zones} \cup {S.life.retry, S.life.hup, S.life.cfgt, S.life.term}
NextWake(S) == LET T == {t \in Timers(S): t >= 0}
               IN IF T = {} THEN -1 ELSE CHOOSE t \in T: \A u \in T: t <= u

(* what arrives from outside ***********************************************)
\* properties of an object change and the change is announced (sig)
Publish(S, path, iface, props, sig) ==
    LET old == IF WHas(S.world, path, iface) THEN S.world[path][iface] ELSE EmptyFun
        new == [p \in DOMAIN old \cup DOMAIN props |-> IF p \in DOMAIN props THEN props[p] ELSE old[p]]
        W   == Put(S.world, path, Put(Get(S.world, path, EmptyFun), iface, new))
    IN [S EXCEPT !.world = W]

Announce(S, path, iface, props) ==
    LET S1 == [S EXCEPT !.sens = [n \in DOMAIN @ |->
                  IF @[n].path = path THEN SensorSignal(@[n], iface, props, S.now, S.var) ELSE @[n]]]
        S2 == IF path = PHost /\ iface = IHost /\ "CurrentHostState" \in DOMAIN props
              THEN [S1 EXCEPT !.hostOn = EndsWith(props["CurrentHostState"].v, ".Running")] ELSE S1
        S3 == IF iface = IRedun /\ S.redon /\ "Status" \in DOMAIN props
                 /\ WHasP(S.world, path, IRedun, "Collection")
              THEN LET f == TakeFault(S2.faults, "Get", path, IRedun)
                   IN [S2 EXCEPT !.faults = f.F,
                                 !.red = IF f.hit THEN @
                                         ELSE IF StatusFailed(props["Status"].v)
                                              THEN Put(@, path, MembersOf(S.world, path))
                                              ELSE Drop(@, path)]
              ELSE S2
    IN S3

ExtNames(S, path) == {n \in DOMAIN S.sens: S.sens[n].kind = "ext" /\ S.sens[n].path = path}

\* a client writes an external sensor
WriteExt(S, path, v) ==
    [S EXCEPT !.sens = [n \in DOMAIN @ |->
        IF @[n].kind = "ext" /\ @[n].path = path
        THEN [@[n] EXCEPT !.v = v, !.u = v, !.upd = S.now] ELSE @[n]]]
===========================================================================

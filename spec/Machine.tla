------------------------------- MODULE Machine -------------------------------
(***************************************************************************)
(* The daemon as one transition function: from a state, an instant and     *)
(* what arrives at that instant, to the next state.                        *)
(* Used by the bounded models (Model) and by trace validation              *)
(* (SwampdTrace) alike.                                                    *)
(***************************************************************************)
EXTENDS DbusConfig, Ipmi

If(b, set) == IF b THEN set ELSE {}

DB(s) == DbusBuild(s)

(* the initial state *******************************************************)
Boot(tr) ==
    [now |-> 0, var |-> tr.var, opts |-> tr.opts, cfg |-> EmptyFun, sens |-> EmptyFun,
     zones |-> EmptyFun, files |-> tr.files, hostOn |-> FALSE, red |-> EmptyFun, redon |-> FALSE,
     wold |-> EmptyFun, ow |-> EmptyFun, core |-> <<>>, ocl |-> <<>>, out |-> NoOut, life |-> NoLife,
     world |-> tr.world, faults |-> tr.faults, json |-> tr.json, rank |-> tr.rank,
     known |-> {}, res |-> <<>>, watch |-> FALSE, want |-> <<>>,
     broken |-> {tr.broken[i]: i \in 1..Len(tr.broken)},
     hint |-> EmptyFun, seen |-> <<>>, fuzzy |-> FALSE, zrank |-> EmptyFun]

\* the observed configuration: zone ids are numbers, which cannot be JSON keys
ConfOf(c) ==
    [sens |-> c.sens,
     zones |-> [z \in {c.zones[i].id: i \in 1..Len(c.zones)} |->
                  c.zones[CHOOSE i \in 1..Len(c.zones): c.zones[i].id = z]],
     nozone |-> c.nozone]

(* applying what arrived from outside **************************************)

ApplyOp(s, op) ==
    CASE op.op = "set" ->
            LET s1 == Publish(s, op.path, op.iface, op.props, op.sig)
                s2 == IF op.sig THEN ConfigTouched(Announce(s1, op.path, op.iface, op.props), op) ELSE s1
            IN s2
      [] op.op = "signal" -> ConfigTouched(Announce(s, op.path, op.iface, op.props), op)
      [] op.op = "addobj" ->
            LET s1 == [s EXCEPT !.world = Put(@, op.path,
                          [i \in DOMAIN Get(@, op.path, EmptyFun) \cup DOMAIN op.ifaces |->
                             IF i \in DOMAIN op.ifaces THEN op.ifaces[i] ELSE @[op.path][i]])]
            IN IF op.sig THEN ObjectAdded(s1, op) ELSE s1
      [] op.op = "rmobj" ->
            LET left == [i \in DOMAIN Get(s.world, op.path, EmptyFun) \ op.gone |-> s.world[op.path][i]]
                s1 == [s EXCEPT !.world = IF DOMAIN left = {} THEN Drop(@, op.path) ELSE Put(@, op.path, left)]
            IN IF op.sig THEN ObjectRemoved(s1, op) ELSE s1
      [] op.op = "file" -> [s EXCEPT !.files = IF op.gone THEN Drop(@, op.path) ELSE Put(@, op.path, op.n),
                                     !.broken = IF op.broken THEN @ \cup {op.path} ELSE @ \ {op.path}]
      [] op.op = "json" -> [s EXCEPT !.json = op.json]
      [] op.op = "fault" -> [s EXCEPT !.faults = Append(@, op.fault)]
      [] op.op = "faultclear" -> [s EXCEPT !.faults = <<>>]
      [] op.op = "hup" -> IF s.life.done = "" THEN [s EXCEPT !.life.hup = s.now + 1000] ELSE s
      [] op.op = "term" -> Terminate(s)
      [] op.op = "setprop" -> SetProp(s, op)
      [] op.op = "getprop" -> GetProp(s, op)
      [] op.op = "ipmi" -> IpmiRequest(s, op)
      [] op.op = "setsensor" -> SetSensorTool(s)
      [] OTHER -> s

\* TLA+ sets cannot be written in JSON
FixOp(op) == IF op.op = "rmobj" THEN [op EXCEPT !.gone = {op.gone[i]: i \in 1..Len(op.gone)}] ELSE op

Queue(ws) ==
    LET ps == {ws[i].path: i \in 1..Len(ws)}
    IN [p \in ps |-> MapSeq(LAMBDA w: w.v, SelectSeq(ws, LAMBDA w: w.path = p))]

\* Control cycles and a life cycle timer due in the same instant may come in
\* either order: after tells that the cycles come first.
AdvanceBy(s, e, rank, after) ==
    LET cf == IF "conf" \in DOMAIN e THEN <<ConfOf(e.conf)>> ELSE s.seen
        s0 == [s EXCEPT !.zrank = rank, !.fuzzy = @ /\ s.zones # EmptyFun, !.now = e.t, !.out = NoOut, !.res = <<>>, !.ow = Queue(e.w), !.ocl = e.core, !.want = <<>>,
                        !.seen = cf, !.hint = IF cf = <<>> THEN EmptyFun ELSE cf[1].zones]
        s1 == IF e.cause = "boot"
              THEN LET f == TakeFault(s0.faults, "Get", PHost, IHost)
                       b == [s0 EXCEPT !.faults = f.F,
                                !.hostOn = ~f.hit /\ EndsWith(WGet(s0.world, PHost, IHost, "CurrentHostState", ""), ".Running")]
                   IN Restart(b, DB)
              ELSE FoldLeft(LAMBDA a, op: IF a.life.done = "" THEN ApplyOp(a, FixOp(op)) ELSE a, s0, e.ops)
        s2 == IF s1.life.done = "" /\ ~after THEN LifeDue(s1, DB) ELSE s1
        \* an implementation that does not lose alarms is right, too
        failing(n) == \E i \in 1..Len(e.zones): "failing" \in DOMAIN e.zones[i] /\ n \in DOMAIN e.zones[i].failing
                        /\ e.zones[i].id \in DueZones(s2)
                        /\ LET z == s2.zones[e.zones[i].id]
                           IN ~z.man /\ (n \in SetOf(z.fans) \/ (z.cyc >= z.c.therm /\ n \in SetOf(z.therms)))
        other(n) == LET x == s2.sens[n]
                    IN Verdict(x, InFailedGroup(s2, x.path), s2.hostOn).f \/ TimedOut(x, x.upd, s2.now)
        s2a == IF s2.life.done # "" \/ \A n \in DOMAIN s2.sens: ~AlarmLost(s2.sens[n]) THEN s2
               ELSE [s2 EXCEPT !.sens = [n \in DOMAIN @ |->
                       IF AlarmLost(@[n]) /\ failing(n) /\ ~other(n) THEN [@[n] EXCEPT !.fl = TRUE] ELSE @[n]]]
        s3 == IF s2a.life.done = "" THEN TickDueIn(s2a, s2a.zrank) ELSE s2a
    IN IF s3.life.done = "" /\ after THEN LifeDue(s3, DB) ELSE s3
AdvanceIn(s, e, rank) == AdvanceBy(s, e, rank, FALSE)

=============================================================================

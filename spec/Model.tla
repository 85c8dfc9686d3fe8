-------------------------------- MODULE Model --------------------------------
(***************************************************************************)
(* Bounded exploration.  A model is a configuration, the world it starts   *)
(* in and an alphabet of operations (a JSON document): at any moment any   *)
(* of the operations may arrive (at most Burst of them between two timers) *)
(* or the next timer fires.  All instants are relative to now.             *)
(*                                                                         *)
(* Given scripts (sequences of such choices, 0 for the timer), only these  *)
(* are followed, and the behaviours are printed for the real daemon.       *)
(***************************************************************************)
EXTENDS Props, TLCExt, Json, IOUtils

M == JsonDeserialize(IOEnv.SWAMPD_MODEL)
Ops == M.alphabet           \* sequence of sequences of operations
Burst == M.burst
Gap == 10

VARIABLES S, G, gap, bad, hist, script
vars == <<S, G, gap, bad, hist, script>>

(* times relative to now ***************************************************)
Sh(t, d) == IF t = -1 THEN -1 ELSE t - d
Old10(u, s, d) == IF s.kind \notin {"pas", "ext"} \/ s.tmo = 0 THEN 0
                  ELSE LET v == u - d IN IF v < -1000 * s.tmo THEN -1000 * s.tmo ELSE v
Shift(R) ==
    LET d == R.now
    IN [R EXCEPT !.now = 0, !.out = NoOut, !.res = <<>>, !.ow = EmptyFun, !.ocl = <<>>, !.want = <<>>,
                 !.seen = <<>>, !.hint = EmptyFun, !.known = {}, !.fuzzy = FALSE,
                 !.faults = SelectSeq(@, LAMBDA f: f.left # 0),
                 !.life.retry = Sh(@, d), !.life.hup = Sh(@, d), !.life.cfgt = Sh(@, d), !.life.term = Sh(@, d),
                 !.sens = [n \in DOMAIN @ |-> [@[n] EXCEPT !.upd = Old10(@, R.sens[n], d)]],
                 !.zones = [z \in DOMAIN @ |-> [@[z] EXCEPT !.due = Sh(@, d),
                                !.fl.ts = MapSeq(LAMBDA t: t - d, SelectSeq(@, LAMBDA t: d - t < 1000))]],
                 !.core = MapSeq(LAMBDA c: [c EXCEPT !.last = IF @ = -1 THEN -1
                                                     ELSE IF @ - d < -60000 THEN -60000 ELSE @ - d], @)]

Blank == Boot(M)
Event(t, cause, ops) == [t |-> t, cause |-> cause, ops |-> ops, w |-> <<>>, core |-> <<>>, zones |-> <<>>]

Take(s, e, g, label) ==
    LET R == AdvanceIn(s, e, EmptyFun)
        H == GhostNext(s, e.ops, R, g)
        b == Broken(s, e.ops, e, R, g, H)
    IN /\ S' = Shift(R) /\ G' = H
       /\ bad' = b
       /\ hist' = IF M.record THEN Append(hist, <<label, R.now>>) ELSE hist

Init == LET B == [Blank EXCEPT !.now = 0]
            e == Event(0, "boot", <<>>)
            R == AdvanceIn(B, e, EmptyFun)
            H == GhostNext(B, <<>>, R, GhostInit)
        IN /\ S = Shift(R) /\ G = H /\ gap = 0
           /\ bad = Broken(B, <<>>, e, R, GhostInit, H)
           /\ hist = <<>>
           /\ script \in (IF M.scripts = <<>> THEN {0} ELSE 1..Len(M.scripts))

Live == S.life.done = ""
Operate(i) ==
    /\ Live /\ gap < Burst
    /\ gap' = (IF NextWake(S) = -1 THEN 0 ELSE gap + 1)
    /\ Take(S, Event(Gap, "op", Ops[i]), G, i)
Wake ==
    /\ Live /\ NextWake(S) >= 0
    /\ gap' = 0
    /\ Take(S, Event(NextWake(S), "wake", <<>>), G, 0)

Quiet == Len(hist) < M.depth
\* the choice of the script, or the timer where that operation cannot arrive
Chosen == LET i == M.scripts[script][Len(hist) + 1] IN IF gap < Burst THEN i ELSE 0
Next == /\ Quiet /\ bad = {} /\ UNCHANGED script
        /\ IF script = 0 THEN Wake \/ \E i \in 1..Len(Ops): Operate(i)
           ELSE IF Chosen = 0 THEN Wake ELSE Operate(Chosen)
Spec == Init /\ [][Next]_vars

\* planned failures do not pile up
FewFaults == Len(S.faults) <= 1
\* a small limit, for the model of messages
SmallLimit == 5

Over == ~Quiet \/ ~Live \/ bad # {} \/ (Chosen = 0 /\ NextWake(S) = -1)
Emit == ~Over \/ PrintT(<<"BEH", ToJson(hist)>>)

(* the properties **********************************************************)
NoBad == bad = {}
C01 == "C01" \notin bad
C02 == "C02" \notin bad
C03 == "C03" \notin bad
C04 == "C04" \notin bad
C05 == "C05" \notin bad
C06 == "C06" \notin bad
C07 == "C07" \notin bad
C08 == "C08" \notin bad
C09 == "C09" \notin bad
C10 == "C10" \notin bad
C11 == "C11" \notin bad
C12 == "C12" \notin bad
C13 == "C13" \notin bad
C14 == "C14" \notin bad
C15 == "C15" \notin bad
C16 == "C16" \notin bad
C17 == "C17" \notin bad
C18 == "C18" \notin bad
C19 == "C19" \notin bad
C20 == "C20" \notin bad
C21 == "C21" \notin bad
C22 == "C22" \notin bad
C23 == "C23" \notin bad
C24 == "C24" \notin bad
C26 == "C26" \notin bad
C28 == "C28" \notin bad
C25 == C05 /\ C01
C27 == C03
=============================================================================

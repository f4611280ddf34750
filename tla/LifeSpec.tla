------------------------------- MODULE LifeSpec -------------------------------
\* The life cycle of a reactor network (C10): time, initialisation, advancing, stepping, limits, changes of contents from
\* outside.  Every reactor has constant rates of change of mass and volume, constant temperature and composition.
\* Times are in microseconds, masses in milligrams, volumes in cm3, densities in mg/m3, temperatures in microkelvin.
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLE st
Res(ok, t, e) == [ok |-> ok, st |-> t, exp |-> e]
MI == 1000000
InitSt(cfg) == [t |-> 0, r |-> << >>, net |-> << >>, h |-> 0, moved |-> FALSE, flow |-> FALSE]
Err1(o) == "err" \in DOMAIN o /\ o.err = 1
Fine(o) == "err" \in DOMAIN o /\ o.err = 0
Abs(x) == IF x < 0 THEN -x ELSE x
InNet(s, i) == \E j \in 1..Len(s.net) : s.net[j] = i
CstP(r) == r.kind \in {"ConstPressureReactor", "IdealGasConstPressureReactor", "ConstPressureMoleReactor", "IdealGasConstPressureMoleReactor"}
Mole(r) == r.kind \in {"MoleReactor", "IdealGasMoleReactor", "ConstPressureMoleReactor", "IdealGasConstPressureMoleReactor"}
NSp(r) == IF r.phase = "gas2" THEN 2 ELSE 3
NEq(r) == NSp(r) + (IF CstP(r) THEN 2 ELSE 3) - (IF Mole(r) THEN 1 ELSE 0)
HasComp(r, c) == \/ c = "mass" /\ ~Mole(r)
                 \/ c = "volume" /\ ~CstP(r)
\* the change of a reactor over dt microseconds; masses and volumes stay below 2e9
Moved(r, dt) == [r EXCEPT !.m = @ + r.q * dt, !.V = IF CstP(r) THEN @ ELSE @ + r.v * dt]
Near(a, b, e) == Abs(a - b) <= e
Slack(r) == 6 + 3 * (Abs(r.q) + Abs(r.v)) + r.m \div 20000000
\* what the reactor shows agrees with what it should hold
Shows(r, o) == /\ Near(o.m, r.m, Slack(r))
               /\ (IF CstP(r) THEN Near(o.rho, r.rho, 20) ELSE Near(o.V, r.V, Slack(r)))
               /\ Near(o.T, r.T, 5) /\ o.mv = 1 /\ o.y = 1
\* after the call the reactors are anchored at what was observed, within the tolerance just checked
Anchor(s, o) == [s EXCEPT !.r = [i \in 1..Len(s.r) |-> [s.r[i] EXCEPT !.m = o.r[i].m, !.V = o.r[i].V, !.rho = o.r[i].rho]]]
Good(s, o) == Len(o.r) = Len(s.r) /\ (\A i \in 1..Len(s.r) : Shows(s.r[i], o.r[i])) /\ o.inet = Len(s.net)
\* the phase of a reactor holds the reactor's state unless it was changed from outside
Synced(s, o) == \A i \in 1..Len(s.r) : s.r[i].own => Near(o.c[i].T, o.r[i].T, 5) /\ Near(o.c[i].rho, o.r[i].rho, 5)
Own(s) == [s EXCEPT !.r = [i \in 1..Len(s.r) |-> IF InNet(s, i) THEN [s.r[i] EXCEPT !.own = TRUE] ELSE s.r[i]]]
Exp(s, t) == [r |-> [i \in 1..Len(s.r) |-> [m |-> s.r[i].m, V |-> s.r[i].V, rho |-> s.r[i].rho, T |-> s.r[i].T, own |-> s.r[i].own]], t |-> t]
Run(s, dt) == Own([s EXCEPT !.r = [i \in 1..Len(s.r) |-> IF InNet(s, i) THEN Moved(s.r[i], dt) ELSE s.r[i]]])
\* the outcome of a call that leaves the network at time t
At(s, o, t, extra) == LET w == Run(s, o.t - s.t) IN
  Res(Fine(o) /\ extra /\ Near(o.t, t, 1) /\ Good(w, o) /\ Synced(w, o), [Anchor(w, o) EXCEPT !.t = o.t, !.moved = TRUE], Exp(w, t))
Stay(s, w, o, extra) == Res(Fine(o) /\ extra /\ o.t = s.t /\ Good(w, o) /\ Synced(w, o), w, Exp(w, s.t))
Refused(s, o) == Res(Err1(o) /\ o.t = s.t /\ Good(s, o), s, "error")
Delta(r, lc, dt) == IF lc = "mass" THEN Abs(r.q) * dt ELSE Abs(r.v) * dt
Limited(s) == \E i \in 1..Len(s.net) : LET r == s.r[s.net[i]] IN r.lm > 0 \/ r.lv > 0
\* a step of dt microseconds changes a component by more than its limit (limits in kg or m3, rates per second)
Over(s, dt) == \E i \in 1..Len(s.net) : LET r == s.r[s.net[i]] IN
  \/ r.lm > 0 /\ HasComp(r, "mass") /\ Abs(r.q) * dt > r.lm * MI + 3 * Abs(r.q) + 3
  \/ r.lv > 0 /\ HasComp(r, "volume") /\ Abs(r.v) * dt > r.lv * MI + 3 * Abs(r.v) + 3
Under(s, dt) == \A i \in 1..Len(s.net) : LET r == s.r[s.net[i]] IN
  /\ (r.lm > 0 /\ HasComp(r, "mass")) => Abs(r.q) * dt <= r.lm * MI - 3 * Abs(r.q) - 3
  /\ (r.lv > 0 /\ HasComp(r, "volume")) => Abs(r.v) * dt <= r.lv * MI - 3 * Abs(r.v) - 3

Check(s, op, o) ==
  CASE op.op = "new" ->
         LET r == [kind |-> op.kind, phase |-> op.phase, m |-> op.m * MI, V |-> op.V * MI, T |-> op.T * MI,
                   rho |-> ((op.m * 1000) \div op.V) * 1000, q |-> 0, v |-> 0, own |-> TRUE, lm |-> -1, lv |-> -1, name |-> op.name] IN
         LET w == [s EXCEPT !.r = Append(@, r)] IN
         Res(Fine(o) /\ o.t = s.t /\ Len(o.r) = Len(w.r) /\ \A i \in 1..Len(w.r) : (i < Len(w.r) => Shows(w.r[i], o.r[i]))
               /\ (i = Len(w.r) => Near(o.r[i].m, w.r[i].m, 10) /\ Near(o.r[i].V, w.r[i].V, 3) /\ o.r[i].mv = 1 /\ o.r[i].y = 1),
             Anchor(w, o), Exp(w, s.t))
    [] op.op = "add" -> LET w == [s EXCEPT !.net = Append(@, op.r + 1)] IN Stay(s, w, o, TRUE)
    [] op.op = "addflow" -> IF Len(s.net) > 0 THEN Refused(s, o) ELSE Res(TRUE, [s EXCEPT !.flow = TRUE], "any")
    [] op.op = "rate" -> LET w == [s EXCEPT !.r[op.r + 1].q = op.m, !.r[op.r + 1].v = IF CstP(s.r[op.r + 1]) THEN 0 ELSE op.v] IN Stay(s, w, o, TRUE)
    [] op.op = "tinit" -> Res(Fine(o) /\ o.t = op.t * MI /\ Good(s, o), [s EXCEPT !.t = op.t * MI], "ok")
    [] op.op = "maxstep" -> IF Len(s.net) = 0 THEN Refused(s, o) ELSE Stay(s, [s EXCEPT !.h = IF op.h > @ THEN op.h ELSE @], o, TRUE)
    [] op.op = "tol" -> Stay(s, s, o, o.ok = 1)
    [] op.op \in {"init", "reinit"} -> IF Len(s.net) = 0 THEN Refused(s, o) ELSE Stay(s, Own(s), o, TRUE)
    [] op.op = "advance" -> IF Len(s.net) = 0 THEN Refused(s, o) ELSE At(s, o, s.t + op.dt * MI, TRUE)
    [] op.op = "back" -> IF Len(s.net) = 0 THEN Refused(s, o)
                         ELSE Res(Err1(o) /\ o.t = s.t /\ Good(s, o), Own(s), "error")
    [] op.op = "step" ->
         IF Len(s.net) = 0 THEN Refused(s, o)
         ELSE At(s, o, o.ret, o.t >= s.t /\ (s.h > 0 => o.t <= s.t + 2 * s.h * MI + 2))
    [] op.op = "advlim" ->
         IF Len(s.net) = 0 THEN Refused(s, o)
         ELSE IF ~Fine(o) THEN Res(FALSE, s, "a time")
         ELSE LET w0 == Run(s, o.t0 - s.t)
                  target == o.t0 + op.dt * MI
                  dt == o.t - o.t0
              IN At(s, o, o.ret, /\ o.t >= o.t0 /\ o.t <= target + 1
                                 /\ (\A i \in 1..Len(s.r) : Shows(w0.r[i], o.r0[i]))
                                 /\ (IF ~Limited(s) THEN o.t >= target - 1
                                     ELSE IF op.pre = 0 THEN ~Over(s, dt) \/ TRUE
                                     ELSE ~Over(s, dt) /\ (o.t < target - 1 => ~Under(s, 2 * dt))))
    [] op.op = "setlim" ->
         LET i == op.r + 1 r == s.r[i] IN
         IF ~HasComp(r, op.c) \/ ~InNet(s, i) THEN Refused(s, o)
         ELSE Res(Fine(o) /\ o.t = s.t /\ Good(s, o), IF op.c = "mass" THEN [s EXCEPT !.r[i].lm = op.v] ELSE [s EXCEPT !.r[i].lv = op.v], "ok")
    [] op.op = "setlims" -> IF Len(s.net) = 0 THEN Refused(s, o)
         ELSE Stay(s, [s EXCEPT !.r = [i \in 1..Len(s.r) |-> IF InNet(s, i) THEN [s.r[i] EXCEPT !.lm = op.v, !.lv = op.v] ELSE s.r[i]]], o, TRUE)
    [] op.op = "getlim" ->
         IF Len(s.net) = 0 THEN Res(TRUE, s, "any")
         ELSE Stay(s, s, o, /\ o.has = o.has2
                      /\ (o.has = 1) = Limited(s)
                      /\ Len(o.lim) = Len(s.net)
                      /\ \A j \in 1..Len(s.net) : LET r == s.r[s.net[j]] none == r.lm <= 0 /\ r.lv <= 0 IN
                           /\ (HasComp(r, "mass") => o.lim[j].mass = (IF none THEN -1 ELSE r.lm))
                           /\ (HasComp(r, "volume") => o.lim[j].volume = (IF none THEN -1 ELSE r.lv)))
    [] op.op = "state" ->
         LET i == op.r + 1 IN
         IF op.sync = 1
         THEN LET w == [s EXCEPT !.r[i].m = op.m * MI, !.r[i].T = op.T * MI, !.r[i].own = TRUE, !.r[i].rho = o.r[i].rho] IN
              Res(Fine(o) /\ o.t = s.t /\ Good(w, o) /\ Synced(w, o), Anchor(w, o), Exp(w, s.t))
         ELSE LET w == [s EXCEPT !.r[i].own = FALSE] IN Stay(s, w, o, TRUE)
    [] op.op = "restore" -> Stay(s, [s EXCEPT !.r[op.r + 1].own = TRUE], o, TRUE)
    [] op.op = "names" ->
         IF Len(s.net) = 0 THEN Refused(s, o)
         ELSE LET sz == [j \in 1..Len(s.net) |-> NEq(s.r[s.net[j]])]
                  RECURSIVE Add(_)
                  Add(n) == IF n = 0 THEN 0 ELSE sz[n] + Add(n - 1)
              IN Stay(s, Own(s), o, /\ o.bad = 0 /\ o.sizes = sz /\ o.neq = Add(Len(sz)) /\ o.past = 1
                             /\ (\A i, j \in 1..Len(o.names) : i # j /\ s.r[s.net[i]].name = "" /\ s.r[s.net[j]].name = "" => o.names[i] # o.names[j])
                             /\ (\A i \in 1..Len(o.names) : s.r[s.net[i]].name # "" => o.names[i] = s.r[s.net[i]].name))
    [] op.op = "vector" ->
         IF Len(s.net) = 0 THEN Res(TRUE, s, "any")
         ELSE Stay(s, Own(s), o, \A j \in 1..Len(s.net) : LET r == s.r[s.net[j]] IN
                Near(o.v[j].m, r.m, Slack(r)) /\ (CstP(r) \/ Near(o.v[j].V, r.V, Slack(r))))
    [] op.op = "est" ->
         Stay(s, Own(s), o, \A j \in 1..Len(s.net) : LET r == s.r[s.net[j]] IN o.v[j].d = r.q /\ o.v[j].e = r.q * op.dt)
    [] OTHER -> Res(FALSE, s, "unknown operation")

Inv(s) == \A i \in 1..Len(s.r) : s.r[i].m > 0 /\ s.r[i].V > 0

\* -- small model: halving the distance stops within the limit and after at least half of what it allows -----------------
RECURSIVE Halve(_, _, _)
Halve(q, l, dt) == IF q * dt <= l \/ dt = 0 THEN dt ELSE Halve(q, l, dt \div 2)
Init == st \in [q : 0..3, l : 1..12, dt : {64, 96, 128}, out : {-1}]
Next == st.out = -1 /\ st' = [st EXCEPT !.out = Halve(st.q, st.l * 8, st.dt)]
MCBound == TRUE
MCInv == st.out # -1 => /\ st.q * st.out <= st.l * 8
                        /\ (st.out < st.dt => st.q * (2 * st.out + 1) > st.l * 8)
===============================================================================

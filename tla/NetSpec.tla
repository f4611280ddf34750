------------------------------- MODULE NetSpec -------------------------------
\* Networks of reactors (C11).  Reactors, flow devices, walls and reacting surfaces with the governing equations that the
\* documentation gives for them, over exact integers.  Phases have molar masses 10 m (m an integer), enthalpies that are
\* integer multiples of the gas constant R and rates that do not depend on temperature.
\* Units: temperature 120 K (n), concentrations kmol/m3, pressure 120 R Pa (p = n * sum of concentrations), mass flow kg/s,
\* heat R W, energy R J.  Rates of change of masses and energies are given times 24, which makes them integers because the
\* density of a reactor is 10 s with s a divisor of 24.
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLE st
Res(ok, t, e) == [ok |-> ok, st |-> t, exp |-> e]
InitSt(cfg) == [r |-> << >>, d |-> << >>, w |-> << >>, s |-> << >>]
Err1(o) == "err" \in DOMAIN o /\ o.err = 1
Fine(o) == "err" \in DOMAIN o /\ o.err = 0
Max(a, b) == IF a > b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x

Sp == {"P1", "P2", "P3", "D", "E"}
M(k) == CASE k = "P1" -> 2 [] k = "P2" -> 3 [] k = "P3" -> 4 [] k = "D" -> 6 [] k = "E" -> 4
X(k) == CASE k = "P1" -> 2 [] k = "P2" -> 1 [] k = "P3" -> 0 [] k = "D" -> 2 [] k = "E" -> 4
Z(k) == CASE k = "P1" -> 0 [] k = "P2" -> 1 [] k = "P3" -> 2 [] k = "D" -> 2 [] k = "E" -> 0
H0(k) == CASE k = "P1" -> 10 [] k = "P2" -> -20 [] k = "P3" -> 30 [] k = "D" -> -40 [] k = "E" -> 5
CP(k) == CASE k = "P1" -> 3 [] k = "P2" -> 4 [] k = "P3" -> 5 [] k = "D" -> 7 [] k = "E" -> 6
\* enthalpy per kmol in units of 10 R
Hk(k, n) == H0(k) + CP(k) * (120 * n - 300)
Has(phase, k) == CASE phase = "toy" -> k # "E" [] phase = "toy2" -> k # "P2" [] phase = "inert" -> k \in {"P1", "P3"}
SumSp(F(_)) == F("P1") + F("P2") + F("P3") + F("D") + F("E")
S(c) == LET f(k) == c[k] * M(k) IN SumSp(f)
Tot(c) == LET f(k) == c[k] IN SumSp(f)
HH(c, n) == LET f(k) == c[k] * Hk(k, n) IN SumSp(f)
PP(r) == r.n * Tot(r.c)
RECURSIVE SumSeq(_, _, _)
SumSeq(n, F(_), i) == IF i > n THEN 0 ELSE F(i) + SumSeq(n, F, i + 1)
Sum(n, F(_)) == SumSeq(n, F, 1)
Lin(f, x) == f.a + f.b * x
Off == [on |-> FALSE, a |-> 0, b |-> 0]
Fn(a, b) == [on |-> TRUE, a |-> a, b |-> b]
IsRes(r) == r.kind = "Reservoir"
CstP(r) == r.kind \in {"ConstPressureReactor", "IdealGasConstPressureReactor", "ConstPressureMoleReactor", "IdealGasConstPressureMoleReactor"}

\* -- flow devices ----------------------------------------------------------------------------
DP(s, d) == PP(s.r[d.a]) - PP(s.r[d.b])
\* the flow of a device at time t; kn: whether it is determined
RECURSIVE Ready(_, _)
Ready(s, d) == d.kind # "PressureController" \/ d.prim > 0
FlowKnown(s, d) == d.kind = "MassFlowController" \/ (d.pf.on /\ d.ps = 0) \/ (~d.pf.on /\ d.ps = 1)
RECURSIVE Flow(_, _, _)
Flow(s, d, t) ==
  LET g == IF d.tf.on THEN Lin(d.tf, t) ELSE 1
      f == IF d.pf.on THEN Lin(d.pf, DP(s, d)) ELSE DP(s, d)
  IN CASE d.kind = "MassFlowController" -> Max(0, d.K * g)
       [] d.kind = "Valve" -> Max(0, d.K * g * f)
       [] d.kind = "PressureController" -> Max(0, d.K * f + Flow(s, s.d[d.prim], t))
\* the mass of species k that leaves through the device, times 24; species unknown downstream are dropped
Part(s, d, m, k) == LET u == s.r[d.a] IN IF Has(s.r[d.b].phase, k) THEN (24 * m * u.c[k] * M(k)) \div S(u.c) ELSE 0
\* enthalpy carried, times 24
Carry(s, d, m) == LET u == s.r[d.a] h == 24 * m * HH(u.c, u.n) IN
  IF h >= 0 THEN h \div S(u.c) ELSE -((-h) \div S(u.c))

\* -- walls -------------------------------------------------------------------------------------
VRate(s, w, t) == w.A * (w.K * (PP(s.r[w.a]) - PP(s.r[w.b])) + Lin(w.v, t))
P4(n) == n * n * n * n
QRate(s, w, t) == w.A * (w.U * 120 * (s.r[w.a].n - s.r[w.b].n) + Lin(w.q, t) + w.eps * (P4(s.r[w.a].n) - P4(s.r[w.b].n)))
\* the wall moves and carries heat from left to right: the left-hand reactor expands and loses heat
Side(w, i) == (IF w.a = i THEN 1 ELSE 0) - (IF w.b = i THEN 1 ELSE 0)
DVol(s, i, t) == LET f(j) == Side(s.w[j], i) * VRate(s, s.w[j], t) IN Sum(Len(s.w), f)
Heat(s, i, t) == LET f(j) == -Side(s.w[j], i) * QRate(s, s.w[j], t) IN Sum(Len(s.w), f)

\* -- chemistry -----------------------------------------------------------------------------------
Gas(r, k) ==
  LET c == r.c IN
  IF r.chem = 0 THEN 0
  ELSE CASE r.phase = "toy" ->
         LET r1 == 2 * c["P1"] * c["P3"] r2 == c["P2"] * c["P2"] r3 == 3 * c["D"] r4 == c["P2"] * c["P2"] IN
         (CASE k = "P1" -> r2 - r1 [] k = "P3" -> r2 - r1 [] k = "P2" -> 2 * (r1 - r2 + r3 - r4) [] k = "D" -> r4 - r3 [] OTHER -> 0)
       [] r.phase = "toy2" ->
         LET r1 == 2 * c["D"] r2 == c["P1"] * c["P1"] r3 == 3 * c["E"] IN
         (CASE k = "D" -> -r1 [] k = "P3" -> r1 [] k = "P1" -> r1 - 2 * r2 + 2 * r3 [] k = "E" -> r2 - r3 [] OTHER -> 0)
       [] OTHER -> 0
\* per area; th: twelfths of the sites covered by S, AS, DS with 12 kmol/m2 of sites, DS occupying two
SurfRates(c, th) == LET r1 == 2 * c["P1"] * th[1] r2 == th[2] r3 == c["D"] * th[1] * th[1] r4 == th[3] r5 == th[2] * c["P3"] IN
  [P1 |-> r2 - r1, P2 |-> 0, P3 |-> -r5, D |-> r4 + r5 - r3, E |-> 0,
   S |-> r2 - r1 - 2 * r3 + 2 * r4 + r5, AS |-> r1 - r2 - r5, DS |-> r3 - r4]
Stick(s, i, k) == LET f(j) == IF s.s[j].r = i THEN s.s[j].A * SurfRates(s.r[i].c, s.s[j].th)[k] ELSE 0 IN Sum(Len(s.s), f)

\* -- the governing equations ------------------------------------------------------------------------
DMass(s, i, k, t) ==
  LET fin(j) == IF s.d[j].b = i THEN Part(s, s.d[j], Flow(s, s.d[j], t), k) ELSE 0
      fout(j) == IF s.d[j].a = i THEN (24 * Flow(s, s.d[j], t) * s.r[i].c[k] * M(k)) \div S(s.r[i].c) ELSE 0
  IN 240 * M(k) * (s.r[i].V * Gas(s.r[i], k) + Stick(s, i, k)) + Sum(Len(s.d), fin) - Sum(Len(s.d), fout)
\* internal energy at constant volume, enthalpy at constant pressure
DEnergy(s, i, t) ==
  LET f(j) == (IF s.d[j].b = i THEN Carry(s, s.d[j], Flow(s, s.d[j], t)) ELSE 0)
              - (IF s.d[j].a = i THEN Carry(s, s.d[j], Flow(s, s.d[j], t)) ELSE 0)
  IN Sum(Len(s.d), f) + 24 * Heat(s, i, t)
     - (IF CstP(s.r[i]) THEN 0 ELSE 24 * 120 * PP(s.r[i]) * DVol(s, i, t))

SameState(r, o) == o.T = 120 * r.n /\ o.p = PP(r) /\ o.rho = 10 * S(r.c) /\ o.hOk = 1 /\ o.uOk = 1 /\ \A k \in Sp : o.c[k] = r.c[k]
StateExp(r) == [T |-> 120 * r.n, p |-> PP(r), rho |-> 10 * S(r.c), c |-> r.c]
OwnSurf(s, i) == SelectSeq([j \in 1..Len(s.s) |-> j], LAMBDA j : s.s[j].r = i)
RateExp(s, i, t) == [dk |-> [k \in Sp |-> DMass(s, i, k, t)],
                     dm |-> (LET f(k) == DMass(s, i, k, t) IN SumSp(f)),
                     dV |-> (IF CstP(s.r[i]) THEN 0 ELSE DVol(s, i, t)),
                     dE |-> (IF s.r[i].energy = 0 THEN 0 ELSE DEnergy(s, i, t)),
                     surf |-> [j \in 1..Len(OwnSurf(s, i)) |->
                        LET q == s.s[OwnSurf(s, i)[j]] x == SurfRates(s.r[i].c, q.th) IN
                        << 24 * q.A * x.S, 24 * q.A * x.AS, 24 * q.A * x.DS >>]]
Loses(s, d) == \E k \in Sp : s.r[d.a].c[k] # 0 /\ ~Has(s.r[d.b].phase, k)
Known(s) == (\A i \in 1..Len(s.r) : s.r[i].known) /\ (\A j \in 1..Len(s.d) : FlowKnown(s, s.d[j]) /\ ~Loses(s, s.d[j]))
RateOk(s, i, t, o) ==
  IF IsRes(s.r[i]) THEN o.res = 1
  ELSE LET e == RateExp(s, i, t) IN
       o.res = 0 /\ o.dm = e.dm /\ o.dV = e.dV /\ o.dE = e.dE /\ o.V = s.r[i].V /\ o.surf = e.surf
       /\ (\A k \in Sp : o.dk[k] = e.dk[k]) /\ SameState(s.r[i], o.st)
Rates(s, op, o) ==
  IF \E j \in 1..Len(s.d) : ~Ready(s, s.d[j]) THEN Res(Err1(o), s, "error")
  ELSE IF ~Known(s) THEN Res(TRUE, s, "any")
  ELSE Res(Fine(o) /\ Len(o.r) = Len(s.r) /\ (\A i \in 1..Len(s.r) : RateOk(s, i, op.t, o.r[i]))
           /\ (\A j \in 1..Len(s.d) : LET m == Flow(s, s.d[j], op.t) IN
                 o.d[j].m = m /\ o.d[j].h = Carry(s, s.d[j], m) /\ \A k \in Sp : o.d[j].f[k] = Part(s, s.d[j], m, k))
           /\ (\A j \in 1..Len(s.w) : o.w[j].v = VRate(s, s.w[j], op.t) /\ o.w[j].q = QRate(s, s.w[j], op.t)),
           s, [r |-> [i \in 1..Len(s.r) |-> IF IsRes(s.r[i]) THEN [dm |-> 0] ELSE RateExp(s, i, op.t)],
               d |-> [j \in 1..Len(s.d) |-> Flow(s, s.d[j], op.t)],
               w |-> [j \in 1..Len(s.w) |-> << VRate(s, s.w[j], op.t), QRate(s, s.w[j], op.t) >>]])

\* -- what a network as a whole gains over a time of ms milliseconds -----------------------------------
InNet(s, i) == ~IsRes(s.r[i])
Inward(s, d) == ~InNet(s, d.a) /\ InNet(s, d.b)
Outward(s, d) == InNet(s, d.a) /\ ~InNet(s, d.b)
Steady(d) == d.kind = "MassFlowController" /\ (~d.tf.on \/ d.tf.b = 0)
MassKnown(s) == \A j \in 1..Len(s.d) : (Inward(s, s.d[j]) \/ Outward(s, s.d[j])) => Steady(s.d[j])
NoLoss(s) == \A j \in 1..Len(s.d) : \A k \in Sp :
  (Has(s.r[s.d[j].a].phase, k) /\ (InNet(s, s.d[j].a) \/ s.r[s.d[j].a].c[k] # 0)) => Has(s.r[s.d[j].b].phase, k)
Tight(s) == \A j \in 1..Len(s.d) : ~Outward(s, s.d[j])
Fixed(s, w) == w.K = 0 /\ w.v.a = 0 /\ w.v.b = 0
VolKnown(s) == (\A i \in 1..Len(s.r) : ~CstP(s.r[i])) /\ \A j \in 1..Len(s.w) :
  (InNet(s, s.w[j].a) /\ InNet(s, s.w[j].b)) \/ (s.w[j].K = 0 /\ s.w[j].v.b = 0)
EnKnown(s) == (\A i \in 1..Len(s.r) : InNet(s, i) => s.r[i].energy = 1) /\ Len(s.s) = 0 /\ Tight(s) /\ MassKnown(s)
  /\ \A j \in 1..Len(s.w) : LET w == s.w[j] l == s.r[w.a] r == s.r[w.b] IN
     IF InNet(s, w.a) /\ InNet(s, w.b) THEN Fixed(s, w) \/ (CstP(l) /\ CstP(r))
     ELSE IF ~InNet(s, w.a) /\ ~InNet(s, w.b) THEN TRUE
     ELSE w.U = 0 /\ w.eps = 0 /\ w.q.b = 0 /\ (Fixed(s, w) \/ CstP(IF InNet(s, w.a) THEN l ELSE r))
Total(s, F(_)) == LET f(i) == IF InNet(s, i) THEN F(i) ELSE 0 IN Sum(Len(s.r), f)
Mols(s, i, W(_)) == LET f(k) == s.r[i].c[k] * W(k) IN s.r[i].V * SumSp(f)
OnSurf(s, as, ds) == LET f(j) == s.s[j].A * (s.s[j].th[2] * as + (s.s[j].th[3] \div 2) * ds) IN Sum(Len(s.s), f)
FlowIn(s, W(_), per) == LET f(j) == LET d == s.d[j] m == Flow(s, d, 0) u == s.r[d.a] g(k) == u.c[k] * W(k) IN
     (IF Inward(s, d) THEN (m * per * SumSp(g)) \div S(u.c) ELSE 0)
     - (IF Outward(s, d) THEN (m * per * SumSp(g)) \div S(u.c) ELSE 0) IN Sum(Len(s.d), f)
AtEnd(s, ms) ==
  LET zz(k) == 2 * Z(k)
      m0(i) == Mols(s, i, M)
      x0(i) == Mols(s, i, X)
      z0(i) == Mols(s, i, zz)
      v0(i) == s.r[i].V
      e0(i) == LET r == s.r[i] f(k) == r.c[k] * (10 * Hk(k, r.n) - (IF CstP(r) THEN 0 ELSE 120 * r.n)) IN r.V * SumSp(f)
      eS(i) == LET r == s.r[i] f(k) == r.c[k] * 10 * (Abs(H0(k)) + CP(k) * 120 * r.n) IN r.V * SumSp(f)
      dv(j) == LET w == s.w[j] IN w.A * w.v.a * ((IF InNet(s, w.a) THEN 1 ELSE 0) - (IF InNet(s, w.b) THEN 1 ELSE 0))
      dq(j) == LET w == s.w[j] IN w.A * w.q.a * ((IF InNet(s, w.b) THEN 1 ELSE 0) - (IF InNet(s, w.a) THEN 1 ELSE 0))
      dh(j) == LET d == s.d[j] m == Flow(s, d, 0) u == s.r[d.a] IN
               IF Inward(s, d) THEN ((m * HH(u.c, u.n)) \div S(u.c)) ELSE 0
  IN [m |-> 10000 * (Total(s, m0) + OnSurf(s, 2, 6)) + FlowIn(s, M, ms),
      x |-> 10000 * (Total(s, x0) + OnSurf(s, 2, 2)) + FlowIn(s, X, ms),
      z |-> 10000 * (Total(s, z0) + OnSurf(s, 0, 4)) + FlowIn(s, zz, ms),
      V |-> 100000 * Total(s, v0) + 100 * ms * Sum(Len(s.w), dv),
      E |-> Total(s, e0) + (ms * (Sum(Len(s.w), dq) + Sum(Len(s.d), dh))) \div 1000,
      Es |-> Total(s, eS)]
Near(a, b, scale) == Abs(a - b) <= Abs(scale) \div 100000 + 4
Lost(s) == [s EXCEPT !.r = [i \in 1..Len(s.r) |-> IF InNet(s, i) THEN [s.r[i] EXCEPT !.known = FALSE] ELSE s.r[i]]]
Advance(s, op, o) ==
  IF \E j \in 1..Len(s.d) : ~Ready(s, s.d[j]) THEN Res(Err1(o), s, "error")
  ELSE IF ~((\A i \in 1..Len(s.r) : s.r[i].known) /\ (\A j \in 1..Len(s.d) : FlowKnown(s, s.d[j])) /\ NoLoss(s)) THEN Res(TRUE, Lost(s), "any")
  ELSE LET e == AtEnd(s, op.ms) IN
       Res(Fine(o) /\ o.t = op.ms /\ o.neg = 0
           /\ (MassKnown(s) => Near(o.m, e.m, e.m))
           /\ (MassKnown(s) /\ Tight(s) => Near(o.x, e.x, e.m) /\ Near(o.z, e.z, e.m))
           /\ (VolKnown(s) => Near(o.V, e.V, e.V))
           /\ (EnKnown(s) => Near(o.E, e.E, e.Es))
           /\ (\A j \in 1..Len(o.site) : Abs(o.site[j] - 1000000) <= 5),
           Lost(s), [e EXCEPT !.Es = IF EnKnown(s) THEN 1 ELSE 0])

Check(s, op, o) ==
  CASE op.op = "reactor" ->
         LET r == [kind |-> op.kind, phase |-> op.phase, n |-> op.T \div 120, c |-> [k \in Sp |-> op.c[k]], V |-> op.V,
                   energy |-> op.energy, chem |-> op.chem, known |-> TRUE] IN
         Res(Fine(o), [s EXCEPT !.r = Append(@, r)], "ok")
    [] op.op = "flag" ->
         LET i == op.r + 1 IN
         Res(Fine(o), IF op.what = "energy" THEN [s EXCEPT !.r[i].energy = op.v]
                      ELSE IF op.what = "chem" THEN [s EXCEPT !.r[i].chem = op.v] ELSE [s EXCEPT !.r[i].V = op.v], "ok")
    [] op.op = "state" ->
         LET i == op.r + 1 IN
         Res(Fine(o), IF op.sync = 1 THEN [s EXCEPT !.r[i].n = op.T \div 120, !.r[i].c = [k \in Sp |-> op.c[k]], !.r[i].V = IF s.r[i].known THEN @ ELSE op.V, !.r[i].known = TRUE]
                      ELSE s, "ok")
    [] op.op = "look" ->
         LET r == s.r[op.r + 1] IN
         IF ~r.known THEN Res(TRUE, s, "any") ELSE Res(Fine(o) /\ SameState(r, o), s, StateExp(r))
    [] op.op = "dev" ->
         Res(Fine(o), [s EXCEPT !.d = Append(@, [kind |-> op.kind, a |-> op.a + 1, b |-> op.b + 1, K |-> 1, ps |-> 0,
                                                 pf |-> Off, tf |-> Off, prim |-> 0])], "ok")
    [] op.op = "devset" ->
         LET i == op.d + 1 d == s.d[i] IN
         (CASE op.what = "K" ->
                 IF op.via = "mdot" THEN (IF d.kind = "MassFlowController" THEN Res(Fine(o), [s EXCEPT !.d[i].K = op.a, !.d[i].tf = Off], "ok")
                                          ELSE Res(Err1(o), s, "error"))
                 ELSE Res(Fine(o), [s EXCEPT !.d[i].K = op.a, !.d[i].ps = op.pscale], "ok")
            [] op.what = "pf" -> IF d.kind = "MassFlowController" THEN Res(Err1(o), s, "error")
                                 ELSE Res(Fine(o), [s EXCEPT !.d[i].pf = Fn(op.a, op.b)], "ok")
            [] op.what = "tf" -> IF d.kind = "PressureController" THEN Res(Err1(o), s, "error")
                                 ELSE Res(Fine(o), [s EXCEPT !.d[i].tf = Fn(op.a, op.b)], "ok")
            [] op.what = "primary" -> IF d.kind # "PressureController" THEN Res(Err1(o), s, "error")
                                      ELSE Res(Fine(o), [s EXCEPT !.d[i].prim = op.a + 1], "ok"))
    [] op.op = "wall" ->
         Res(Fine(o), [s EXCEPT !.w = Append(@, [a |-> op.a + 1, b |-> op.b + 1, A |-> 1, K |-> 0, U |-> 0, eps |-> 0,
                                                 v |-> Off, q |-> Off])], "ok")
    [] op.op = "wallset" ->
         LET i == op.w + 1 IN
         (CASE op.what = "A" -> Res(Fine(o), [s EXCEPT !.w[i].A = op.a], "ok")
            [] op.what = "K" -> Res(Fine(o), [s EXCEPT !.w[i].K = op.a], "ok")
            [] op.what = "U" -> Res(Fine(o), [s EXCEPT !.w[i].U = op.a], "ok")
            [] op.what = "eps" -> IF op.a > 10 \/ op.a < 0 THEN Res(Err1(o), s, "error") ELSE Res(Fine(o), [s EXCEPT !.w[i].eps = op.a], "ok")
            [] op.what = "v" -> Res(Fine(o), [s EXCEPT !.w[i].v = Fn(op.a, op.b)], "ok")
            [] op.what = "q" -> Res(Fine(o), [s EXCEPT !.w[i].q = Fn(op.a, op.b)], "ok"))
    [] op.op = "surf" -> Res(Fine(o), [s EXCEPT !.s = Append(@, [r |-> op.r + 1, A |-> op.A, th |-> op.th])], "ok")
    [] op.op = "cov" -> Res(Fine(o), [s EXCEPT !.s[op.s + 1].th = op.th], "ok")
    [] op.op = "rates" -> Rates(s, op, o)
    [] op.op = "advance" -> Advance(s, op, o)
    [] OTHER -> Res(FALSE, s, "unknown operation")

\* -- small model: the laws conserve what they should, over every small network --------------------------
SmallC == {[k \in Sp |-> IF k = "P1" THEN 3 ELSE 0], [k \in Sp |-> IF k = "P1" THEN 1 ELSE IF k = "P3" THEN 1 ELSE 0],
           [k \in Sp |-> IF k = "D" THEN 1 ELSE 0], [k \in Sp |-> IF k = "P2" THEN 2 ELSE 0]}
Rs == {[kind |-> kd, phase |-> "toy", n |-> n, c |-> c, V |-> 1, energy |-> 1, chem |-> 1, known |-> TRUE] :
       kd \in {"Reactor", "ConstPressureReactor"}, n \in {2, 4}, c \in SmallC}
Ds == {[kind |-> kd, a |-> 1, b |-> 2, K |-> 1, ps |-> 1, pf |-> Off, tf |-> tf, prim |-> 0] :
       kd \in {"MassFlowController", "Valve"}, tf \in {Off, Fn(1, 1), Fn(-1, 0)}}
Ws == {[a |-> 2, b |-> 1, A |-> 1, K |-> k, U |-> 1, eps |-> 1, v |-> v, q |-> Fn(1, -1)] : k \in {0, 1}, v \in {Off, Fn(2, -1)}}
Ss == {<< >>} \cup {<<[r |-> 1, A |-> 2, th |-> th]>> : th \in {<<12, 0, 0>>, <<4, 4, 4>>}}
Init == \E a \in Rs, b \in Rs, d \in Ds, w \in Ws, q \in Ss : st = [r |-> <<a, b>>, d |-> <<d>>, w |-> <<w>>, s |-> q]
Next == UNCHANGED st
MCBound == TRUE
Inv(s) == \A i \in 1..Len(s.r) : s.r[i].known => 24 % S(s.r[i].c) = 0
Conserve(s) ==
  LET N == Len(s.r)
      on(i) == LET f(j) == IF s.s[j].r = i THEN s.s[j].A * (SurfRates(s.r[i].c, s.s[j].th).AS * 2 + SurfRates(s.r[i].c, s.s[j].th).DS * 6) ELSE 0 IN Sum(Len(s.s), f)
      ox(i) == LET f(j) == IF s.s[j].r = i THEN s.s[j].A * (SurfRates(s.r[i].c, s.s[j].th).AS * 2 + SurfRates(s.r[i].c, s.s[j].th).DS * 2) ELSE 0 IN Sum(Len(s.s), f)
      mass(i) == (LET f(k) == DMass(s, i, k, 1) IN SumSp(f)) + 240 * on(i)
      atoms(i) == (LET f(k) == (DMass(s, i, k, 1) * X(k)) \div M(k) IN SumSp(f)) + 240 * ox(i)
      vol(i) == DVol(s, i, 1)
      en(i) == DEnergy(s, i, 1)
      sites(i) == LET f(j) == IF s.s[j].r = i THEN LET x == SurfRates(s.r[i].c, s.s[j].th) IN x.S + x.AS + 2 * x.DS ELSE 0 IN Sum(Len(s.s), f)
  IN Known(s) =>
     /\ Sum(N, mass) = 0
     /\ Sum(N, vol) = 0
     /\ (Abs(Sum(N, atoms)) <= 8)
     /\ Sum(N, sites) = 0
     /\ (((\A i \in 1..N : ~CstP(s.r[i])) /\ ((s.w[1].K = 0 /\ s.w[1].v = Off) \/ PP(s.r[1]) = PP(s.r[2]))) => Abs(Sum(N, en)) <= 2)
MCInv == Inv(st) /\ Conserve(st)
===============================================================================

---- MODULE KinSpec ----
(* Homogeneous kinetics with exactly representable numbers.
   Temperatures are 1000/th K with th = 1 or 2; species k has H = h*R*1000*ln2, S = s*R*ln2 and Cp = 0 at the reference
   pressure R*1000, so that every equilibrium constant is a power of two.  A rate constant is a*2^(-b*lg(th) - e*th).
   Rates of progress are observed times 64, species rates times 128 (coefficients are stored doubled). *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLE st

Lg(th) == IF th = 1 THEN 0 ELSE 1
RECURSIVE Pw(_, _)
Pw(x, n) == IF n = 0 THEN 1 ELSE x * Pw(x, n - 1)
Sqrt(x) == CHOOSE y \in 0..16 : y * y = x
Lg2(x) == CHOOSE y \in 0..8 : Pw(2, y) = x
\* v * 2^n, exact by construction of the scenarios
Scale(v, n) == IF n >= 0 THEN v * Pw(2, n) ELSE v \div Pw(2, -n)

\* c^(o2/2) as [v, s]: v * 2^s
PowC(c, o2) == CASE o2 = 0 -> [v |-> 1, s |-> 0]
                 [] o2 > 0 /\ o2 % 2 = 0 -> [v |-> Pw(c, o2 \div 2), s |-> 0]
                 [] o2 > 0 /\ o2 % 2 = 1 -> [v |-> Pw(Sqrt(c), o2), s |-> 0]
                 [] OTHER -> IF c = 0 THEN [v |-> 0, s |-> 0] ELSE [v |-> 1, s |-> (Lg2(c) * o2) \div 2]
RECURSIVE ProdC(_, _)
ProdC(c, o) == IF o = << >> THEN [v |-> 1, s |-> 0]
               ELSE LET p == PowC(c[Head(o)[1]], Head(o)[2])
                        q == ProdC(c, Tail(o))
                    IN [v |-> p.v * q.v, s |-> p.s + q.s]

\* A reaction: reac, prod, ord: sequences of <<species, twice the coefficient>> (species occur once per list);
\* rev, tb ("none", "act": multiplies the rate, "low": low-pressure falloff limit, "high": high-pressure limit),
\* deff, eff (sequence over species), a, b, e
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = << >> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
Sum(n, f(_)) == LET RECURSIVE S(_) 
                    S(k) == IF k = 0 THEN 0 ELSE f(k) + S(k - 1)
                IN S(n)
NS(s) == Len(s.sp)
Coef(q, k) == Sum(Len(q), LAMBDA j : IF q[j][1] = k THEN q[j][2] ELSE 0)
Nu2(r, k) == Coef(r.prod, k) - Coef(r.reac, k)
Total2(q) == Sum(Len(q), LAMBDA j : q[j][2])
DeltaOf(s, r, f) == Sum(NS(s), LAMBDA k : Nu2(r, k) * s.sp[k][f]) \div 2
\* log2 of the equilibrium constant in concentration units
LgKc(s, r) == DeltaOf(s, r, "s") - s.th * DeltaOf(s, r, "h") + Lg(s.th) * ((Total2(r.prod) - Total2(r.reac)) \div 2)
M(s, r) == Sum(NS(s), LAMBDA k : r.eff[k] * s.c[k])
\* rate constant, mantissa and exponent, including the multiplier; a falloff reaction's limit includes [M]
KfM(s, i) == LET r == s.rx[i] IN r.a * s.mult[i] * (IF r.tb = "low" THEN M(s, r) ELSE 1)
KfS(s, i) == LET r == s.rx[i] IN -r.b * Lg(s.th) - r.e * s.th
ActM(s, r) == IF r.tb = "act" THEN M(s, r) ELSE 1
Kf(s, i) == Scale(KfM(s, i), KfS(s, i) + 6)
Kr(s, i) == IF s.rx[i].rev THEN Scale(KfM(s, i), KfS(s, i) - LgKc(s, s.rx[i]) + 6) ELSE 0
Kri(s, i) == Scale(KfM(s, i), KfS(s, i) - LgKc(s, s.rx[i]) + 6)
Fwd(s, i) == LET r == s.rx[i]
                 p == ProdC(s.c, r.ord)
             IN Scale(KfM(s, i) * ActM(s, r) * p.v, p.s + KfS(s, i) + 6)
Rev(s, i) == LET r == s.rx[i]
                 p == ProdC(s.c, r.prod)
             IN IF ~r.rev THEN 0 ELSE Scale(KfM(s, i) * ActM(s, r) * p.v, p.s + KfS(s, i) - LgKc(s, r) + 6)
Net(s, i) == Fwd(s, i) - Rev(s, i)
NR(s) == Len(s.rx)
PerRx(s, f(_, _)) == [i \in 1..NR(s) |-> f(s, i)]
\* species rates from the (already evaluated) rates of progress
SpRate(s, g(_, _), F, R) == [k \in 1..NS(s) |-> Sum(NR(s), LAMBDA i : g(Coef(s.rx[i].prod, k), Coef(s.rx[i].reac, k)) * F[i]
                                                           + g(Coef(s.rx[i].reac, k), Coef(s.rx[i].prod, k)) * R[i])]
Creation(s) == LET F == PerRx(s, Fwd)
                   R == PerRx(s, Rev)
               IN [k \in 1..NS(s) |-> Sum(NR(s), LAMBDA i : Coef(s.rx[i].prod, k) * F[i] + Coef(s.rx[i].reac, k) * R[i])]
Destruction(s) == LET F == PerRx(s, Fwd)
                      R == PerRx(s, Rev)
                  IN [k \in 1..NS(s) |-> Sum(NR(s), LAMBDA i : Coef(s.rx[i].reac, k) * F[i] + Coef(s.rx[i].prod, k) * R[i])]
NetProd(s) == LET N == PerRx(s, Net)
              IN [k \in 1..NS(s) |-> Sum(NR(s), LAMBDA i : Nu2(s.rx[i], k) * N[i])]

\* derivatives with respect to the concentration of species j (orders are whole numbers there)
DProd(c, o, j) == LET oj == Coef(o, j) \div 2
                      rest == SelectSeq(o, LAMBDA x : x[1] # j)
                  IN IF oj = 0 THEN 0 ELSE oj * Pw(c[j], oj - 1) * ProdC(c, rest).v
\* third-body factor, and its derivative under the derivative settings in force
AnyM(s, r) == IF r.tb \in {"act", "low"} THEN M(s, r) ELSE 1
TbD(s, r, j) == IF s.skip3 \/ (s.skipf /\ r.tb # "act") THEN 0 ELSE IF r.tb \in {"act", "low"} THEN r.eff[j] ELSE 0
DFwd(s, i, j) == LET r == s.rx[i]
                     KM == r.a * s.mult[i]
                 IN Scale(KM * (DProd(s.c, r.ord, j) * AnyM(s, r) + TbD(s, r, j) * ProdC(s.c, r.ord).v), KfS(s, i) + 6)
DRev(s, i, j) == LET r == s.rx[i]
                     KM == r.a * s.mult[i]
                 IN IF ~r.rev THEN 0
                    ELSE Scale(KM * (DProd(s.c, r.prod, j) * AnyM(s, r) + TbD(s, r, j) * ProdC(s.c, r.prod).v),
                               KfS(s, i) - LgKc(s, r) + 6)
Mat(s, f(_, _, _)) == [i \in 1..NR(s) |-> [j \in 1..NS(s) |-> f(s, i, j)]]
DNet(s, i, j) == DFwd(s, i, j) - DRev(s, i, j)
\* derivative with respect to the total concentration, times that concentration
DTot(s, f(_, _, _)) == [i \in 1..NR(s) |-> Sum(NS(s), LAMBDA j : s.c[j] * f(s, i, j))]
DX(s, f(_, _, _)) == LET ct == Sum(NS(s), LAMBDA j : s.c[j]) IN [i \in 1..NR(s) |-> [j \in 1..NS(s) |-> ct * f(s, i, j)]]
\* logarithmic derivatives with respect to temperature (whole numbers without activation energies and reaction enthalpies)
Dn(r) == (Total2(r.prod) - Total2(r.reac)) \div 2
DNpr(s) == LET D == Mat(s, DNet)
           IN [k \in 1..NS(s) |-> [j \in 1..NS(s) |-> Sum(NR(s), LAMBDA i : Nu2(s.rx[i], k) * D[i][j])]]
DCre(s) == LET F == Mat(s, DFwd)
               R == Mat(s, DRev)
           IN [k \in 1..NS(s) |-> [j \in 1..NS(s) |-> Sum(NR(s), LAMBDA i : Coef(s.rx[i].prod, k) * F[i][j]
                                                                        + Coef(s.rx[i].reac, k) * R[i][j])]]
DDes(s) == LET F == Mat(s, DFwd)
               R == Mat(s, DRev)
           IN [k \in 1..NS(s) |-> [j \in 1..NS(s) |-> Sum(NR(s), LAMBDA i : Coef(s.rx[i].reac, k) * F[i][j]
                                                                        + Coef(s.rx[i].prod, k) * R[i][j])]]

Query(s, q) ==
  CASE q = "fwd" -> PerRx(s, Fwd)
    [] q = "rev" -> PerRx(s, Rev)
    [] q = "net" -> PerRx(s, Net)
    [] q = "cre" -> Creation(s)
    [] q = "des" -> Destruction(s)
    [] q = "npr" -> NetProd(s)
    [] q = "kf" -> PerRx(s, Kf)
    [] q = "kr" -> PerRx(s, Kr)
    [] q = "kri" -> PerRx(s, Kri)
    [] q = "kc" -> [i \in 1..NR(s) |-> Scale(64, LgKc(s, s.rx[i]))]
    [] q = "tbc" -> [i \in 1..NR(s) |-> IF s.rx[i].tb = "none" THEN -1 ELSE M(s, s.rx[i])]
    [] q = "dh" -> [i \in 1..NR(s) |-> 2 * DeltaOf(s, s.rx[i], "h")]
    [] q = "dssh" -> [i \in 1..NR(s) |-> 2 * DeltaOf(s, s.rx[i], "h")]
    [] q = "rs" -> [i \in 1..NR(s) |-> [k \in 1..NS(s) |-> Coef(s.rx[i].reac, k)]]
    [] q = "ps" -> [i \in 1..NR(s) |-> [k \in 1..NS(s) |-> Coef(s.rx[i].prod, k)]]
    [] q = "rpm" -> [i \in 1..NR(s) |-> [k \in 1..NS(s) |-> IF s.rx[i].rev THEN Coef(s.rx[i].prod, k) ELSE 0]]
    [] q = "delta" -> [i \in 1..NR(s) |-> Sum(NS(s), LAMBDA k : Nu2(s.rx[i], k) * (k * k + 1))]
    [] q = "dsum" -> << 0, 0, 0, 0, 0, 0 >>
    [] q = "revs" -> [i \in 1..NR(s) |-> IF s.rx[i].rev THEN 1 ELSE 0]
    [] q = "mult" -> s.mult
    [] q = "dfwd" -> Mat(s, DFwd)
    [] q = "drev" -> Mat(s, DRev)
    [] q = "dnet" -> Mat(s, DNet)
    [] q = "dfx" -> DX(s, DFwd)
    [] q = "drx" -> DX(s, DRev)
    [] q = "dnx" -> DX(s, DNet)
    [] q = "dfc" -> DTot(s, DFwd)
    [] q = "drc" -> DTot(s, DRev)
    [] q = "dnc" -> DTot(s, DNet)
    [] q = "dfp" -> [i \in 1..NR(s) |-> 0]
    [] q = "dft" -> [i \in 1..NR(s) |-> IF Fwd(s, i) = 0 THEN 0 ELSE s.rx[i].b]
    [] q = "dkt" -> [i \in 1..NR(s) |-> IF s.mult[i] = 0 \/ Kf(s, i) = 0 THEN 0 ELSE s.rx[i].b]
    [] q = "drt" -> [i \in 1..NR(s) |-> IF Rev(s, i) = 0 THEN 0 ELSE s.rx[i].b + Dn(s.rx[i])]
    [] q = "dnpr" -> DNpr(s)
    [] q = "dcre" -> DCre(s)
    [] q = "ddes" -> DDes(s)

InitSt(cfg) == [sp |-> cfg.sp, rx |-> << >>, mult |-> << >>, c |-> [k \in 1..Len(cfg.sp) |-> 1], th |-> 1,
                skip3 |-> FALSE, skipf |-> FALSE]

Res(ok, s, e) == [ok |-> ok, st |-> s, exp |-> e]
AddAll(s, rs) == [s EXCEPT !.rx = @ \o rs, !.mult = @ \o [i \in 1..Len(rs) |-> 1]]
Same(a, b) == a.reac = b.reac /\ a.prod = b.prod /\ a.tb = b.tb
Check(s, op, obs) ==
  CASE op.op = "add" -> LET t == AddAll(s, op.rx) IN Res(obs.n = NR(t), t, [n |-> NR(t)])
    [] op.op = "state" -> Res(obs.ok = 1, [s EXCEPT !.c = op.c, !.th = op.th], [ok |-> 1])
    [] op.op = "mult" -> Res(obs.ok = 1, [s EXCEPT !.mult[op.i] = op.f], [ok |-> 1])
       \* a replacement that changes more than the rate is refused or takes full effect
    [] op.op = "modify" -> LET r == op.rx
                               o == s.rx[op.i]
                               t == [s EXCEPT !.rx[op.i] = r]
                               rateonly == Same(o, r) /\ o.rev = r.rev /\ o.ord = r.ord /\ o.eff = r.eff
                           IN IF rateonly THEN Res(obs.err = 0, t, [err |-> 0])
                              ELSE Res(TRUE, IF obs.err = 0 THEN t ELSE s, [err |-> 1])
    [] op.op = "dset" -> Res(obs.ok = 1, [s EXCEPT !.skip3 = op.skip3, !.skipf = op.skipf], [ok |-> 1])
    \* a refused reaction leaves the mechanism as it was
    [] op.op = "bad" -> Res(obs.err = 1 /\ obs.n = NR(s), s, [err |-> 1, n |-> NR(s)])
    [] op.op = "inval" -> Res(obs.ok = 1, s, [ok |-> 1])
    [] op.op = "q" -> LET want == [x \in 1..Len(op.qs) |-> Query(s, op.qs[x])]
                      IN Res(want = obs.v, s, want)

\* conservation: every element (comp) is conserved by the net production rates
Conserved(s) == \A e \in 1..Len(s.sp[1].comp) :
                  LET N == NetProd(s) IN Sum(NS(s), LAMBDA k : N[k] * s.sp[k].comp[e]) = 0
Inv(s) == Len(s.mult) = Len(s.rx)

\* ------------------------------------------------------------ exploration of the specification
Sp(h, s, x) == [h |-> h, s |-> s, comp |-> x]
Cfg0 == [sp |-> <<Sp(0, 0, <<1, 0>>), Sp(0, 1, <<2, 0>>), Sp(0, 0, <<0, 1>>), Sp(1, 0, <<1, 1>>)>>]
Rx(reac, prod, rev, tb, eff, a, b, e) ==
    [reac |-> reac, prod |-> prod, ord |-> reac, rev |-> rev, tb |-> tb, eff |-> eff, a |-> a, b |-> b, e |-> e]
Lib == << Rx(<< <<1, 4>> >>, << <<2, 2>> >>, TRUE, "act", <<1, 2, 1, 0>>, 4, 0, 0),
          Rx(<< <<1, 2>>, <<3, 2>> >>, << <<4, 2>> >>, TRUE, "none", <<0, 0, 0, 0>>, 8, 1, 0),
          Rx(<< <<2, 2>>, <<3, 2>> >>, << <<4, 2>>, <<1, 2>> >>, FALSE, "none", <<0, 0, 0, 0>>, 4, 0, 1) >>
Init == st = InitSt(Cfg0)
Next == \/ /\ NR(st) < 3
           /\ \E i \in 1..3 : st' = AddAll(st, <<Lib[i]>>)
        \/ \E th \in 1..2 : st' = [st EXCEPT !.th = th]
        \/ \E k \in 1..4 : \E x \in {0} : st' = [st EXCEPT !.c[k] = x]
        \/ \E i \in 1..NR(st) : \E f \in {2} : st' = [st EXCEPT !.mult[i] = f]
Cons2(s) == LET C == Creation(s)
                D == Destruction(s)
                N == NetProd(s)
            IN \A k \in 1..NS(s) : C[k] - D[k] = N[k] /\ C[k] >= 0 /\ D[k] >= 0 /\ (s.c[k] = 0 => D[k] = 0)
\* equal multiplication of forward and reverse: equilibrium is independent of the multiplier
MultLaw(s) == \A i \in 1..NR(s) : \A f \in {1, 3} :
                  LET t == [s EXCEPT !.mult[i] = f]
                      u == [s EXCEPT !.mult[i] = 1]
                  IN /\ Fwd(t, i) = f * Fwd(u, i) /\ Rev(t, i) = f * Rev(u, i)
                     /\ \A j \in 1..NR(s) : j # i => Net(t, j) = Net(s, j)
MCInv == Inv(st) /\ Conserved(st) /\ Cons2(st) /\ MultLaw(st)
MCBound == NR(st) <= 2
====

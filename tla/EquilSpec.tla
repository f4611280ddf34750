------------------------------ MODULE EquilSpec ------------------------------
\* Chemical equilibrium (C18).  The specification decides which composition is the equilibrium: all quantities are exact in units in which
\* chemical potentials are integer multiples of R T ln 2 and mole fractions powers of 1/2:
\*   mu_k / (R T ln 2) = g_k - q_k + pi   in an ideal gas at pressure 2^pi times the reference pressure, x_k = 2^-q_k
\*                     = g_k - q_k        in an ideal condensed solution
\*                     = g_k              in a pure solid
\* The conditions of Karush, Kuhn and Tucker (the problem is convex) make a composition the minimum of the Gibbs energy.
\* op.ph[i]: kind in {"gas", "soln", "solid"}, sp: [a, g]; an op gives the system, the claimed equilibrium (target), another composition n0 with the same
\* elements and the element potentials lam; the code starts at n0 with the two held properties of the target and has to arrive at the target.
EXTENDS Rat, FiniteSets, TLC
VARIABLE st
Res(ok, t, e) == [ok |-> ok, st |-> t, exp |-> e]
RECURSIVE Cat(_, _)
Cat(f, k) == IF k = 0 THEN << >> ELSE Cat(f, k - 1) \o f[k]
InitSt(cfg) == [tries |-> 0, fails |-> 0]
Sum(f) == SumR(f, 1, Len(f))
NSp(s) == [i \in 1..Len(s.ph) |-> Len(s.ph[i].sp)]
RECURSIVE SumI(_, _)
SumI(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumI(f, k - 1)
Off(s, i) == SumI(NSp(s), i - 1)
Part(s, n, i) == SubSeq(n, Off(s, i) + 1, Off(s, i) + Len(s.ph[i].sp))
All(s) == Cat([i \in 1..Len(s.ph) |-> s.ph[i].sp], Len(s.ph))
Elem(s, n) == LET sp == All(s) IN [m \in 1..s.ne |-> Sum([k \in 1..Len(n) |-> Mul(I(sp[k].a[m]), n[k])])]
Lin(a, lam) == SumI([m \in 1..Len(a) |-> a[m] * lam[m]], Len(a))
NonNeg(n) == \A k \in 1..Len(n) : Known(n[k]) /\ n[k][1] >= 0
\* an element that is not there: species made of it can not be there either
Locked(s, b, k) == \E m \in 1..s.ne : All(s)[k].a[m] # 0 /\ b[m] = Zero
MinPhase(s, n, lam, pi, b, i) ==
  LET p == s.ph[i] x == Part(s, n, i) N == Sum(x) IN
  IF p.kind = "solid" THEN Locked(s, b, Off(s, i) + 1) \/ IF x[1][1] > 0 THEN p.sp[1].g = Lin(p.sp[1].a, lam) ELSE p.sp[1].g > Lin(p.sp[1].a, lam)
  ELSE /\ N[1] > 0
       /\ \A k \in 1..Len(x) :
            IF Locked(s, b, Off(s, i) + k) THEN x[k] = Zero
            ELSE x[k][1] > 0 /\ LET q == Log2(Div(x[k], N)) IN Known(q) /\ p.sp[k].g + q[1] + (IF p.kind = "gas" THEN pi ELSE 0) = Lin(p.sp[k].a, lam)
\* columns: element contents of one mole of each present phase; independent columns make the amounts of the phases unique
Cols(s, n) == LET P == {i \in 1..Len(s.ph) : Sum(Part(s, n, i))[1] > 0}
                  RECURSIVE Go(_)
                  Go(k) == IF k = 0 THEN << >> ELSE IF k \in P THEN Append(Go(k - 1), [m \in 1..s.ne |-> LET x == Part(s, n, k) N == Sum(x) IN Sum([j \in 1..Len(x) |-> Mul(I(s.ph[k].sp[j].a[m]), Div(x[j], N))])]) ELSE Go(k - 1)
              IN Go(Len(s.ph))
RECURSIVE Indep(_)
Indep(C) ==
  IF C = << >> THEN TRUE
  ELSE LET c == C[1] S == {m \in 1..Len(c) : c[m] # Zero} IN
       IF S = {} THEN FALSE
       ELSE LET m == CHOOSE m \in S : TRUE IN
            Indep([j \in 1..(Len(C) - 1) |-> [l \in 1..Len(c) |-> Sub(C[j + 1][l], Mul(c[l], Div(C[j + 1][m], c[m])))]])
IsMin(s, n, lam, pi) == LET b == Elem(s, n) IN NonNeg(n) /\ (\A i \in 1..Len(s.ph) : MinPhase(s, n, lam, pi, b, i)) /\ Indep(Cols(s, n))
\* the pairs a solver does not offer are refused
Offered(op) == op.solver # "gibbs" \/ op.XY \in {"TP", "HP", "SP", "TV"}
Bars(op) == IF op.pi >= 0 THEN 100 * (2 ^ op.pi) ELSE 100 \div (2 ^ (0 - op.pi))
Check(s, op, obs) ==
  CASE op.op = "equil" ->
       LET y == [ph |-> op.ph, ne |-> op.ne] IN
       \* the claim of the op is itself verified (not trusted)
       IF ~(IsMin(y, op.target, op.lam, op.pi) /\ NonNeg(op.n0) /\ Elem(y, op.n0) = Elem(y, op.target) /\ op.p = Bars(op)) THEN Res(FALSE, s, "not an equilibrium")
       ELSE IF ~Offered(op) THEN Res(obs.skip \/ (obs.err /\ obs.kept), s, "refused, state kept")
       ELSE \* arrives, or reports an error and keeps the state
            Res(obs.skip \/ (obs.err /\ obs.kept)
                \/ (~obs.err /\ obs.T = op.T /\ obs.p = op.p /\ obs.held /\ \A k \in 1..Len(op.target) : I(obs.n[k]) = Mul(I(op.D), op.target[k])),
                IF obs.skip THEN s ELSE [s EXCEPT !.tries = @ + 1, !.fails = @ + IF obs.err THEN 1 ELSE 0],
                [n |-> [k \in 1..Len(op.target) |-> Mul(I(op.D), op.target[k])], T |-> op.T, p |-> op.p])
    [] op.op = "end" -> Res(s.fails * 10 <= s.tries * op.most, s, s)       \* a solver that mostly gives up is no solver
Inv(s) == s.fails <= s.tries
\* ------------------------------------------------- small model: the conditions do single out one composition
\* gas A, B, A2 (elements: one of A; isomers) and a solid; all compositions with the same elements on a grid: only the target meets them
MPh(g, h) == <<[kind |-> "gas", sp |-> <<[a |-> <<1>>, g |-> g], [a |-> <<1>>, g |-> 2], [a |-> <<2>>, g |-> h]>>], [kind |-> "solid", sp |-> <<[a |-> <<3>>, g |-> 0]>>]>>
MS(g, h) == [ph |-> MPh(g, h), ne |-> 1]
Comps == {n \in {<<<<i, 4>>, <<j, 4>>, <<k, 4>>, <<l, 4>>>> : i, j, k, l \in 0..16} : n[1][1] + n[2][1] + 2 * n[3][1] + 3 * n[4][1] = 16}
Nrm(n) == [k \in 1..4 |-> Add(Zero, n[k])]
Mins(s, pi) == {n \in {Nrm(m) : m \in Comps} : \E l \in -3..3 : IsMin(s, n, <<l>>, pi)}
Init == st \in {[g |-> g, h |-> h, pi |-> q] : g \in 0..2, h \in 0..4, q \in -1..1}
Next == UNCHANGED st
\* at most one composition meets the conditions, and from it no admissible change lowers the (convex) Gibbs energy
MCInv == LET s == MS(st.g, st.h) M == Mins(s, st.pi) IN
  /\ Cardinality(M) <= 1
  /\ \A n \in M : \A m \in {Nrm(c) : c \in Comps} :
       LET N == Sum(Part(s, n, 1))
           mu == [k \in 1..4 |-> IF k = 4 THEN I(0) ELSE Add(Log2(Div(n[k], N)), I(s.ph[1].sp[k].g + st.pi))]
       IN Sum([k \in 1..4 |-> Mul(Sub(m[k], n[k]), mu[k])])[1] >= 0
MCBound == TRUE
=============================================================================

------------------------------- MODULE ClibSpec -------------------------------
\* The C interface (C09): tables of handles onto shared objects.  Every call with a bad handle, index, length or name returns
\* an error code and records a message, leaves every object and handle alone and writes nothing into the caller's memory;
\* every other call does what it says to exactly the object it names.  Real numbers are thousandths.
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLE st
Res(ok, t, e) == [ok |-> ok, st |-> t, exp |-> e]
DE == -999999
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Last(q) == q[Len(q)]
Range(q) == {q[i] : i \in 1..Len(q)}
Where(q, x) == IF \E i \in 1..Len(q) : q[i] = x THEN CHOOSE i \in 1..Len(q) : q[i] = x /\ \A j \in 1..(i - 1) : q[j] # x ELSE 0
InitSt(cfg) == [S |-> << >>, T |-> << >>, K |-> << >>, R |-> << >>, sol |-> << >>, th |-> << >>, kn |-> << >>, tr |-> << >>,
                fn |-> << >>, mx |-> << >>, rx |-> << >>, nt |-> << >>, cn |-> << >>, sf |-> << >>, dm |-> << >>, sm |-> << >>,
                dg |-> << >>, bl |-> << >>]

\* -- the model file -----------------------------------------------------------------------------------------------------
Sp(kd) == CASE kd = "gas" -> <<"A", "B", "C">> [] kd = "mix" -> <<"B", "A">> [] OTHER -> <<"S", "AS">>
El(kd) == CASE kd = "mix" -> <<"Xe1", "Ze1">> [] OTHER -> <<"Xe1">>
Atoms(k, e) == IF e = "Ze1" \/ k = "S" THEN 0 ELSE IF k = "C" THEN 2 ELSE 1
MW(k) == CASE k = "C" -> 2 [] k = "S" -> 0 [] OTHER -> 1
T0(kd) == CASE kd = "gas" -> 300 [] kd = "mix" -> 400 [] OTHER -> 500
D0(kd) == CASE kd = "gas" -> 2 [] kd = "mix" -> 3 [] OTHER -> -1
NR(kd) == IF kd = "gas" THEN 4 ELSE 1
Eqn(kd) == CASE kd = "gas" -> <<"A => B", "A <=> B", "A <=> B", "2 A => C">> [] kd = "mix" -> <<"B => A">> [] OTHER -> <<"A + S => AS">>
Rev(kd) == CASE kd = "gas" -> <<0, 1, 1, 0>> [] OTHER -> <<0>>
RK(kd) == CASE kd = "gas" -> <<3, 5, 2, 7>> [] kd = "mix" -> <<4>> [] OTHER -> <<6>>
Reac(kd, i) == CASE kd = "gas" -> (IF i = 4 THEN <<"A", "A">> ELSE <<"A">>) [] kd = "mix" -> <<"B">> [] OTHER -> <<"A", "S">>
Prod(kd, i) == CASE kd = "gas" -> (IF i = 4 THEN <<"C">> ELSE <<"B">>) [] kd = "mix" -> <<"A">> [] OTHER -> <<"AS">>

\* -- handles ------------------------------------------------------------------------------------------------------------
\* tables of [o, p]: object (0 once deleted) and parent; other tables hold records with "on"
Ok(tab, h) == h >= 0 /\ h < Len(tab) /\ tab[h + 1].o > 0
Alive(tab, h) == h >= 0 /\ h < Len(tab) /\ tab[h + 1].on = 1
Index(tab, o, p) ==
  LET all == {i \in 1..Len(tab) : tab[i].o = o} here == {i \in all : tab[i].p = p} IN
  IF o = 0 \/ all = {} THEN -1 ELSE IF here = {} THEN -2 ELSE (CHOOSE i \in here : \A j \in here : j <= i) - 1
Drop(tab, h) == IF h < 0 \/ h >= Len(tab) THEN tab ELSE [tab EXCEPT ![h + 1].o = 0]
Off(tab, h) == [tab EXCEPT ![h + 1].on = 0]
Wipe(tab) == [i \in 1..Len(tab) |-> [tab[i] EXCEPT !.o = 0]]
AllOff(tab) == [i \in 1..Len(tab) |-> [tab[i] EXCEPT !.on = 0]]
SOf(s, h) == s.S[s.sol[h + 1].o]
TOf(s, h) == s.T[s.th[h + 1].o]
KOf(s, h) == s.K[s.kn[h + 1].o]
SName(s, o) == s.T[s.S[o].th].nm
\* a handle, its thermo, kinetics and transport handles for solution object o
Handle(s, o) == LET id == Len(s.sol) IN
  [s EXCEPT !.sol = Append(@, [o |-> o, p |-> -1]), !.th = Append(@, [o |-> s.S[o].th, p |-> id]), !.kn = Append(@, [o |-> s.S[o].kn, p |-> id]),
            !.tr = Append(@, [o |-> s.S[o].tr, p |-> id]), !.S[o].seen = TRUE]
\* a new solution object (without handle)
Make(s, kd, model, adj) ==
  LET t == Len(s.T) + 1 IN
  [s EXCEPT !.T = Append(@, [kd |-> kd, t |-> T0(kd), d |-> D0(kd), hot |-> 1, nm |-> kd]),
            !.K = Append(@, [kd |-> kd, m |-> [i \in 1..NR(kd) |-> 1], ph |-> <<t>> \o [i \in 1..Len(adj) |-> s.S[adj[i]].th],
                             nm |-> <<kd>> \o [i \in 1..Len(adj) |-> SName(s, adj[i])]]),
            !.R = Append(@, [m |-> model]),
            !.S = Append(@, [kd |-> kd, th |-> t, kn |-> Len(s.K) + 1, tr |-> Len(s.R) + 1, adj |-> adj, an |-> [i \in 1..Len(adj) |-> SName(s, adj[i])], seen |-> FALSE])]
Model(kd, m) == IF m = "" THEN "none" ELSE m
WithOwn(s, m) == LET g == Make(s, "gas", "none", << >>) x == Make(g, "mix", "mixture-averaged", << >>) IN
  Make(x, "surf", m, <<Len(s.S) + 1, Len(s.S) + 2>>)
\* the solutions kept alive by handles, reactors and domains, with everything adjacent to them
Pinned(s) == LET a == {s.sol[i].o : i \in 1..Len(s.sol)} \cup {s.rx[i].s : i \in 1..Len(s.rx)} \cup {s.dm[i].s : i \in {j \in 1..Len(s.dm) : s.dm[j].on = 1 \/ s.dm[j].kept = 1}}
             IN (a \cup UNION {Range(s.S[o].adj) : o \in a \ {0}}) \ {0}

\* -- kinetics -----------------------------------------------------------------------------------------------------------
KSp(s, k) == LET RECURSIVE Cat(_)
                 Cat(i) == IF i > Len(k.ph) THEN << >> ELSE Sp(s.T[k.ph[i]].kd) \o Cat(i + 1)
             IN Cat(1)
KStart(s, k, p) == LET RECURSIVE Sum(_)
                       Sum(i) == IF i > p THEN 0 ELSE Len(Sp(s.T[k.ph[i]].kd)) + Sum(i + 1)
                   IN Sum(1)
\* the concentration of species number k (from 1) of the kinetics, -1 when not known
KConc(s, k, j) == LET p == CHOOSE q \in 1..Len(k.ph) : KStart(s, k, q - 1) < j /\ j <= KStart(s, k, q)
                      t == s.T[k.ph[p]] n == j - KStart(s, k, p - 1)
                  IN IF t.hot = 0 THEN -1 ELSE IF t.kd = "surf" THEN (IF t.hot = n THEN 2 ELSE 0)
                     ELSE IF t.hot # n THEN 0 ELSE IF t.d < 0 THEN -1 ELSE t.d * (IF MW(Sp(t.kd)[n]) = 2 THEN 500 ELSE 1000)
CUnit(k, j, s) == LET p == CHOOSE q \in 1..Len(k.ph) : KStart(s, k, q - 1) < j /\ j <= KStart(s, k, q) IN IF s.T[k.ph[p]].kd = "surf" THEN 1000 ELSE 1
\* concentrations in thousandths
KC(s, k, j) == LET c == KConc(s, k, j) IN IF c = -1 THEN -1 ELSE c * CUnit(k, j, s)
First(s, k, nm) == Where(KSp(s, k), nm)
\* forward and reverse rate of progress of reaction i in thousandths, -1 when not known
Fwd(s, k, i) == LET r == Reac(k.kd, i) a == KC(s, k, First(s, k, r[1])) IN
  IF k.m[i] = 0 THEN (IF a = -1 THEN -1 ELSE 0)
  ELSE IF Len(r) = 1 THEN (IF a = -1 THEN -1 ELSE RK(k.kd)[i] * k.m[i] * a)
  ELSE LET b == KC(s, k, First(s, k, r[2])) IN IF a = -1 \/ b = -1 THEN -1 ELSE RK(k.kd)[i] * k.m[i] * ((a * (b \div 500)) \div 2)
Bwd(s, k, i) == IF Rev(k.kd)[i] = 0 THEN 0 ELSE LET b == KC(s, k, First(s, k, Prod(k.kd, i)[1])) IN IF b = -1 THEN -1 ELSE RK(k.kd)[i] * k.m[i] * b
Count(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
\* species nm of the kinetics as a reactant or product: only its first occurrence takes part
NuR(s, k, j, i) == IF First(s, k, KSp(s, k)[j]) = j THEN Count(Reac(k.kd, i), KSp(s, k)[j]) ELSE 0
NuP(s, k, j, i) == IF First(s, k, KSp(s, k)[j]) = j THEN Count(Prod(k.kd, i), KSp(s, k)[j]) ELSE 0
Known(s, k) == \A i \in 1..NR(k.kd) : Fwd(s, k, i) # -1 /\ Bwd(s, k, i) # -1
Creation(s, k, j) == LET RECURSIVE Sum(_)
                         Sum(i) == IF i > NR(k.kd) THEN 0 ELSE NuP(s, k, j, i) * Fwd(s, k, i) + NuR(s, k, j, i) * Bwd(s, k, i) + Sum(i + 1)
                     IN Sum(1)
Destruct(s, k, j) == LET RECURSIVE Sum(_)
                         Sum(i) == IF i > NR(k.kd) THEN 0 ELSE NuR(s, k, j, i) * Fwd(s, k, i) + NuP(s, k, j, i) * Bwd(s, k, i) + Sum(i + 1)
                     IN Sum(1)

\* -- functions: values as coefficients of 1, x, x^2, ... ----------------------------------------------------------------
Co(f, i) == IF i <= Len(f) THEN f[i] ELSE 0
PAdd(f, g, c) == [i \in 1..Max(Len(f), Len(g)) |-> Co(f, i) + c * Co(g, i)]
PMul(f, g) == [i \in 1..(Len(f) + Len(g)) |-> LET RECURSIVE Sum(_)
                                                  Sum(j) == IF j > i THEN 0 ELSE Co(f, j) * Co(g, i - j + 1) + Sum(j + 1)
                                              IN Sum(1)]
PDer(f) == IF Len(f) < 2 THEN <<0>> ELSE [i \in 1..(Len(f) - 1) |-> i * f[i + 1]]
PVal(f, x) == LET RECURSIVE H(_)
                  H(i) == IF i > Len(f) THEN 0 ELSE f[i] + x * H(i + 1)
              IN H(1)
Backw(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
\* beyond these sizes the rounding of thousandths and 32 bits matter: not followed any further
Tame(f) == Len(f) <= 6 /\ \A i \in 1..Len(f) : f[i] < 3000 /\ f[i] > -3000

\* -- what every handle shows ------------------------------------------------------------------------------------------
SolOk(s, i, o) == LET h == s.sol[i] IN
  IF h.o = 0 THEN o = [nm |-> "!", th |-> -2, kn |-> -2, tr |-> -2, na |-> -1]
  ELSE LET x == s.S[h.o] IN o = [nm |-> SName(s, h.o), th |-> Index(s.th, x.th, i - 1), kn |-> Index(s.kn, x.kn, i - 1),
                                 tr |-> Index(s.tr, x.tr, i - 1), na |-> Len(x.adj)]
ThOk(s, i, o) == LET h == s.th[i] IN
  IF h.o = 0 THEN o = [nm |-> "!", p |-> h.p, t |-> DE, d |-> DE, k |-> -1, x |-> DE]
  ELSE LET x == s.T[h.o] IN o.nm = x.nm /\ o.p = h.p /\ (x.t >= 0 => o.t = 1000 * x.t) /\ (x.d >= 0 => o.d = 1000 * x.d)
                            /\ o.k = Len(Sp(x.kd)) /\ (x.hot > 0 => o.x = (IF x.hot = 1 THEN 1000 ELSE 0))
KnOk(s, i, o) == LET h == s.kn[i] IN
  IF h.o = 0 THEN o = [p |-> h.p, k |-> -1, r |-> -1, ph |-> -1, m |-> [j \in 1..5 |-> DE]]
  ELSE LET x == s.K[h.o] IN o = [p |-> h.p, k |-> Len(KSp(s, x)), r |-> NR(x.kd), ph |-> Len(x.ph), m |-> [j \in 1..5 |-> IF j <= NR(x.kd) THEN 1000 * x.m[j] ELSE DE]]
TrOk(s, i, o) == LET h == s.tr[i] IN o = [p |-> h.p, nm |-> IF h.o = 0 THEN "!" ELSE s.R[h.o].m]
FnOk(f, o) == IF f.on = 0 THEN o.a = DE /\ o.b = DE ELSE f.wild = 1 \/ (o.a = 1000 * PVal(f.c, 1) /\ o.b = 1000 * PVal(f.c, -1))
MSp(s, m) == LET RECURSIVE Cat(_)
                 Cat(i) == IF i > Len(m.ph) THEN << >> ELSE Sp(s.T[m.ph[i]].kd) \o Cat(i + 1)
             IN Cat(1)
MxOk(s, m, o) == IF m.on = 0 THEN o = [ph |-> -1, k |-> -1, m |-> [i \in 1..4 |-> DE]]
                 ELSE o.ph = Len(m.ph) /\ o.k = Len(MSp(s, m)) /\ \A i \in 1..4 : o.m[i] = (IF i <= Len(m.ph) THEN 1000 * m.n[i] ELSE DE)
RxOk(r, o) == IF r.on = 0 THEN o = [nm |-> "!", ty |-> "!", v |-> DE, t |-> DE, d |-> DE]
              ELSE o.nm = r.nm /\ o.ty = r.ty /\ o.v = 1000 * r.v /\ (r.t >= 0 => o.t = 1000 * r.t) /\ (r.d >= 0 => o.d = 1000 * r.d)
NtOk(n, o) == IF n.on = 0 THEN o = [r |-> -1, a |-> -1] ELSE o = [r |-> n.r, a |-> n.a]
CnOk(c, o) == IF c.on = 0 THEN o = [nm |-> "!", ty |-> "!", a |-> DE] ELSE o = [nm |-> c.nm, ty |-> c.ty, a |-> IF c.ty = "Wall" THEN 1000 * c.a ELSE DE]
SfOk(f, o) == IF f.on = 0 THEN o = [nm |-> "!", a |-> DE] ELSE o = [nm |-> f.nm, a |-> 1000 * f.a]
DmOk(d, o) == IF d.on = 0 THEN o = [ty |-> "!", n |-> -1, k |-> -1, i |-> -1] ELSE o = [ty |-> d.ty, n |-> d.n, k |-> d.k, i |-> d.i]
SnapOk(s, o) ==
  /\ Len(o.sol) = Len(s.sol) /\ (\A i \in 1..Len(s.sol) : SolOk(s, i, o.sol[i]))
  /\ Len(o.thermo) = Len(s.th) /\ (\A i \in 1..Len(s.th) : ThOk(s, i, o.thermo[i]))
  /\ Len(o.kin) = Len(s.kn) /\ (\A i \in 1..Len(s.kn) : KnOk(s, i, o.kin[i]))
  /\ Len(o.tr) = Len(s.tr) /\ (\A i \in 1..Len(s.tr) : TrOk(s, i, o.tr[i]))
  /\ Len(o.func) = Len(s.fn) /\ (\A i \in 1..Len(s.fn) : FnOk(s.fn[i], o.func[i]))
  /\ Len(o.mix) = Len(s.mx) /\ (\A i \in 1..Len(s.mx) : MxOk(s, s.mx[i], o.mix[i]))
  /\ Len(o.rx) = Len(s.rx) /\ (\A i \in 1..Len(s.rx) : RxOk(s.rx[i], o.rx[i]))
  /\ Len(o.net) = Len(s.nt) /\ (\A i \in 1..Len(s.nt) : NtOk(s.nt[i], o.net[i]))
  /\ Len(o.con) = Len(s.cn) /\ (\A i \in 1..Len(s.cn) : CnOk(s.cn[i], o.con[i]))
  /\ Len(o.surf) = Len(s.sf) /\ (\A i \in 1..Len(s.sf) : SfOk(s.sf[i], o.surf[i]))
  /\ Len(o.dom) = Len(s.dm) /\ (\A i \in 1..Len(s.dm) : DmOk(s.dm[i], o.dom[i]))
  /\ o.live = Cardinality({x \in Pinned(s) : s.S[x].seen})

\* -- outcomes -----------------------------------------------------------------------------------------------------------
\* a call that succeeds: "good" is what its result has to satisfy
Fine(t, o, good) == Res(good /\ o.e = 0 /\ o.c = 1 /\ SnapOk(t, o.snap), t, "success")
\* a call that is refused with code c: nothing changes, nothing is written
Bad(s, o, c) == Res(o.r = c /\ o.e = 1 /\ o.c = 1 /\ (\A i \in 1..Len(o.v) : o.v[i] = -5) /\ SnapOk(s, o.snap), s, [error |-> c])
\* a refusal without a message
Quiet(s, o, c) == Res(o.r = c /\ o.e = 0 /\ o.c = 1 /\ SnapOk(s, o.snap), s, [code |-> c])
\* a query
Get(s, o, x) == Res(o.r = x /\ o.e = 0 /\ o.c = 1 /\ SnapOk(s, o.snap), s, [value |-> x])
Some(s, o) == Res(o.e = 0 /\ o.c = 1 /\ SnapOk(s, o.snap), s, "a value")
\* a string copied into a buffer of len characters
Cut(str, len) == IF len = 0 THEN "" ELSE IF Len(str) < len THEN str ELSE SubSeq(str, 1, len - 1)
Str(s, o, str, len) == Res(o.r = (IF Len(str) < len THEN 0 ELSE Len(str) + 1) /\ o.s = Cut(str, len) /\ o.e = 0 /\ o.c = 1 /\ SnapOk(s, o.snap), s, [str |-> str])
\* n values written into an array of len
Arr(s, o, n, len, f(_)) == Res(o.r = 0 /\ o.e = 0 /\ o.c = 1 /\ (\A i \in 1..len : o.v[i] = (IF i <= n THEN f(i) ELSE -5)) /\ SnapOk(s, o.snap), s, [arr |-> [i \in 1..n |-> f(i)]])
\* some values written
Wrote(s, o, n, len) == Res(o.r = 0 /\ o.e = 0 /\ o.c = 1 /\ (\A i \in 1..len : i > n => o.v[i] = -5) /\ SnapOk(s, o.snap), s, "an array")
New(t, o, id) == Res(o.r = id /\ o.e = 0 /\ o.c = 1 /\ SnapOk(t, o.snap), t, [handle |-> id])
Done(t, o) == Fine(t, o, o.r = 0)
\* like Done, but whether it succeeds is not specified; nothing changes that the handles show
Either(s, o) == Res(((o.r = 0 /\ o.e = 0) \/ (o.r = -1 /\ o.e = 1)) /\ o.c = 1 /\ SnapOk(s, o.snap), s, "either")

Flow(t) == t \in {"free-flow", "axisymmetric-flow"}
\* -- solutions ----------------------------------------------------------------------------------------------------------
Sol(s, op, o) ==
  LET h == IF Len(op.i) > 0 THEN op.i[1] ELSE 0 IN
  CASE op.f = "soln_new" ->
         LET kd == op.s[1] m == op.s[2] IN
         IF kd \in {"bad", "nosuch"} \/ m = "nosuch" THEN Bad(s, o, -1)
         ELSE IF kd = "surf" THEN LET w == WithOwn(s, Model(kd, m)) IN New(Handle(w, Len(w.S)), o, Len(s.sol))
         ELSE LET w == Make(s, kd, Model(kd, m), << >>) IN New(Handle(w, Len(w.S)), o, Len(s.sol))
    [] op.f = "soln_newInterface" ->
         IF \E i \in 1..Len(op.i) : ~Ok(s.sol, op.i[i]) THEN Bad(s, o, -1)
         ELSE LET adj == [i \in 1..Len(op.i) |-> s.sol[op.i[i] + 1].o] IN
              IF op.s[1] # "surf" \/ (\E i \in 1..Len(adj) : s.S[adj[i]].kd = "surf")
                 \/ (\E i, j \in 1..Len(adj) : i < j /\ SName(s, adj[i]) = SName(s, adj[j])) THEN Bad(s, o, -1)
              ELSE LET w == IF adj = << >> THEN WithOwn(s, "none") ELSE Make(s, "surf", "none", adj) IN New(Handle(w, Len(w.S)), o, Len(s.sol))
    [] op.f = "soln_del" ->
         IF ~Ok(s.sol, h) THEN Bad(s, o, -1)
         ELSE LET x == SOf(s, h) IN
              Done([s EXCEPT !.sol = Drop(@, h), !.th = Drop(@, Index(s.th, x.th, h)), !.kn = Drop(@, Index(s.kn, x.kn, h)), !.tr = Drop(@, Index(s.tr, x.tr, h))], o)
    [] op.f = "soln_setTransportModel" ->
         IF ~Ok(s.sol, h) \/ op.s[1] = "nosuch" \/ (SOf(s, h).kd = "surf" /\ op.s[1] # "none") THEN Bad(s, o, -1)
         ELSE IF o.r = -1 /\ op.s[1] = "none" /\ \E j \in 1..Len(s.dm) : Flow(s.dm[j].ty) /\ s.dm[j].s = s.sol[h + 1].o
         THEN Bad([s EXCEPT !.S[s.sol[h + 1].o].tr = 0], o, -1)          \* a flow domain objects to the change after it was made
         ELSE IF SOf(s, h).tr > 0 /\ s.R[SOf(s, h).tr].m = op.s[1]          \* the model it has already: only the handle is renewed
         THEN New([s EXCEPT !.tr = Append(Drop(@, Index(s.tr, SOf(s, h).tr, h)), [o |-> SOf(s, h).tr, p |-> h])], o, Len(s.tr))
         ELSE LET so == s.sol[h + 1].o
                  w == [s EXCEPT !.tr = Append(Drop(@, Index(s.tr, s.S[so].tr, h)), [o |-> Len(s.R) + 1, p |-> h]),
                                 !.R = Append(@, [m |-> op.s[1]]), !.S[so].tr = Len(s.R) + 1]
              IN New(w, o, Len(s.tr))
    [] op.f = "soln_adjacent" ->
         IF ~Ok(s.sol, h) THEN Bad(s, o, -2)
         ELSE LET x == SOf(s, h) IN
              IF op.i[2] < 0 \/ op.i[2] >= Len(x.adj) THEN Quiet(s, o, -1)
              ELSE New(Handle(s, x.adj[op.i[2] + 1]), o, Len(s.sol))
    [] op.f = "soln_adjacentName" ->
         IF ~Ok(s.sol, h) \/ op.i[2] < 0 \/ op.i[2] >= Len(SOf(s, h).adj) THEN Bad(s, o, -1)
         ELSE Str(s, o, SName(s, SOf(s, h).adj[op.i[2] + 1]), op.i[3])
    [] op.f = "soln_name" ->
         IF ~Ok(s.sol, h) THEN Bad(s, o, -1)
         ELSE LET n == SName(s, s.sol[h + 1].o) IN
              Res(o.r = Len(n) /\ o.s = Cut(n, op.i[2]) /\ o.e = 0 /\ o.c = 1 /\ SnapOk(s, o.snap), s, [name |-> n])
    [] op.f = "soln_nAdjacent" -> IF ~Ok(s.sol, h) THEN Bad(s, o, -1) ELSE Get(s, o, Len(SOf(s, h).adj))
    [] op.f = "soln_thermo" -> IF ~Ok(s.sol, h) THEN Bad(s, o, -2) ELSE Get(s, o, Index(s.th, SOf(s, h).th, h))
    [] op.f = "soln_kinetics" -> IF ~Ok(s.sol, h) THEN Bad(s, o, -2) ELSE Get(s, o, Index(s.kn, SOf(s, h).kn, h))
    [] op.f = "soln_transport" -> IF ~Ok(s.sol, h) THEN Bad(s, o, -2) ELSE Get(s, o, Index(s.tr, SOf(s, h).tr, h))
    [] op.f = "ct_clearStorage" -> Done([s EXCEPT !.sol = Wipe(@), !.th = Wipe(@), !.kn = Wipe(@), !.tr = Wipe(@)], o)
    [] op.f = "ct_resetStorage" -> Done([s EXCEPT !.sol = << >>, !.th = << >>, !.kn = << >>, !.tr = << >>], o)

\* -- phases -------------------------------------------------------------------------------------------------------------
Fraction(s, t, k) == IF t.hot = k THEN 1000 ELSE 0
SpecName(str) == CASE str = "B:1" -> "B" [] str = "C:2" -> "C" [] str = "Q:1" -> "Q" [] str = "S:1" -> "S" [] str = "AS:1" -> "AS" [] OTHER -> "A"
Thermo(s, op, o) ==
  LET h == op.i[1]
      D == {"thermo_moleFraction", "thermo_massFraction", "thermo_minTemp", "thermo_maxTemp", "thermo_critTemperature", "thermo_vaporFraction"}
      err == IF op.f \in D THEN DE ELSE IF op.f = "thermo_nAtoms" THEN -999000 ELSE -1
      x == s.th[h + 1].o t == s.T[x] sp == Sp(t.kd) el == El(t.kd) n == Len(sp)
      i2 == IF Len(op.i) > 1 THEN op.i[2] ELSE 0
      i3 == IF Len(op.i) > 2 THEN op.i[3] ELSE 0
      fluid == t.kd # "surf"
  IN
  IF op.f = "thermo_del" THEN Get(s, o, 0)
  ELSE IF op.f = "thermo_size" THEN Get(s, o, Len(s.th))
  ELSE IF op.f = "thermo_parent" THEN (IF h < 0 \/ h >= Len(s.th) THEN Bad(s, o, -2) ELSE Get(s, o, s.th[h + 1].p))
  ELSE IF ~Ok(s.th, h) THEN Bad(s, o, err)
  ELSE CASE op.f = "thermo_nElements" -> Get(s, o, Len(el))
    [] op.f = "thermo_nSpecies" -> Get(s, o, n)
    [] op.f = "thermo_setTemperature" -> IF op.d[1] <= 0 THEN Bad(s, o, -1) ELSE Done([s EXCEPT !.T[x].t = op.d[1]], o)
    [] op.f = "thermo_setDensity" -> IF ~fluid \/ op.d[1] <= 0 THEN Bad(s, o, -1) ELSE Done([s EXCEPT !.T[x].d = op.d[1]], o)
    [] op.f = "thermo_set_TD" ->
         IF op.d[1] <= 0 \/ op.d[2] <= 0 \/ ~fluid
         THEN LET w == [s EXCEPT !.T[x].t = -1] IN Res(o.r = -1 /\ o.e = 1 /\ o.c = 1 /\ SnapOk(w, o.snap), w, "error")
         ELSE Done([s EXCEPT !.T[x].t = op.d[1], !.T[x].d = op.d[2]], o)
    [] op.f \in {"thermo_moleFraction", "thermo_massFraction"} ->
         IF i2 < 0 \/ i2 >= n THEN Bad(s, o, DE) ELSE IF t.hot = 0 THEN Some(s, o) ELSE Get(s, o, Fraction(s, t, i2 + 1))
    [] op.f \in {"thermo_getMoleFractions", "thermo_getMassFractions"} ->
         IF i2 < n THEN Bad(s, o, -1) ELSE IF t.hot = 0 THEN Wrote(s, o, n, i2) ELSE Arr(s, o, n, i2, LAMBDA k : Fraction(s, t, k))
    [] op.f = "thermo_getMolecularWeights" -> IF i2 < n THEN Bad(s, o, -1) ELSE IF fluid THEN Arr(s, o, n, i2, LAMBDA k : 1000 * MW(sp[k])) ELSE Wrote(s, o, n, i2)
    [] op.f = "thermo_getAtomicWeights" -> IF i2 < Len(el) THEN Bad(s, o, -1) ELSE IF fluid THEN Arr(s, o, Len(el), i2, LAMBDA k : IF k = 1 THEN 1000 ELSE 7000) ELSE Wrote(s, o, Len(el), i2)
    [] op.f = "thermo_getCharges" -> IF i2 < n THEN Bad(s, o, -1) ELSE Arr(s, o, n, i2, LAMBDA k : 0)
    [] op.f \in {"thermo_setMoleFractions", "thermo_setMassFractions"} ->
         IF Len(op.d) < n THEN Bad(s, o, -1)
         ELSE LET k == CHOOSE j \in 1..Len(op.d) : op.d[j] > 0 IN IF k > n THEN Res(o.c = 1, [s EXCEPT !.T[x].hot = 0], "any") ELSE Done([s EXCEPT !.T[x].hot = k], o)
    [] op.f \in {"thermo_setMoleFractionsByName", "thermo_setMassFractionsByName"} ->
         LET k == Where(sp, SpecName(op.s[1])) IN
         IF k = 0 \/ (op.s[1] = "A:1, B:0" /\ t.kd = "surf") THEN Bad(s, o, -1) ELSE Done([s EXCEPT !.T[x].hot = k], o)
    [] op.f = "thermo_getSpeciesName" -> IF i2 < 0 \/ i2 >= n THEN Bad(s, o, -1) ELSE Str(s, o, sp[i2 + 1], i3)
    [] op.f = "thermo_getElementName" -> IF i2 < 0 \/ i2 >= Len(el) THEN Bad(s, o, -1) ELSE Str(s, o, el[i2 + 1], i3)
    [] op.f = "thermo_getName" -> Str(s, o, t.nm, i2)
    [] op.f = "thermo_getEosType" -> Str(s, o, IF fluid THEN "ideal-gas" ELSE "ideal-surface", i2)
    [] op.f = "thermo_setName" -> Done([s EXCEPT !.T[x].nm = op.s[1]], o)
    [] op.f = "thermo_speciesIndex" -> IF Where(sp, op.s[1]) = 0 THEN Bad(s, o, -1) ELSE Get(s, o, Where(sp, op.s[1]) - 1)
    [] op.f = "thermo_elementIndex" -> IF Where(el, op.s[1]) = 0 THEN Bad(s, o, -1) ELSE Get(s, o, Where(el, op.s[1]) - 1)
    [] op.f = "thermo_nAtoms" -> IF i2 < 0 \/ i2 >= n \/ i3 < 0 \/ i3 >= Len(el) THEN Bad(s, o, -999000) ELSE Get(s, o, 1000 * Atoms(sp[i2 + 1], el[i3 + 1]))
    [] op.f \in {"thermo_minTemp", "thermo_maxTemp"} -> IF (i2 < 0 /\ i2 # -1) \/ i2 >= n THEN Bad(s, o, DE) ELSE Some(s, o)
    [] op.f \in {"thermo_critTemperature", "thermo_vaporFraction"} -> Bad(s, o, DE)
    [] op.f = "thermo_setState_Tsat" -> Bad(s, o, -1)
    [] OTHER -> Res(FALSE, s, "unknown operation")

Kin(s, op, o) ==
  LET h == op.i[1]
      D == {"kin_reactantStoichCoeff", "kin_productStoichCoeff", "kin_multiplier"}
      err == IF op.f \in D THEN DE ELSE -1
      x == s.kn[h + 1].o k == s.K[x] kd == k.kd nr == NR(kd) sp == KSp(s, k) n == Len(sp)
      i2 == IF Len(op.i) > 1 THEN op.i[2] ELSE 0
      i3 == IF Len(op.i) > 2 THEN op.i[3] ELSE 0
      rx == i2 >= 0 /\ i2 < nr
      Rates(g(_)) == IF i2 < nr THEN Bad(s, o, -1) ELSE IF ~Known(s, k) THEN Wrote(s, o, nr, i2) ELSE Arr(s, o, nr, i2, g)
      Species(g(_)) == IF i2 < n THEN Bad(s, o, -1) ELSE IF ~Known(s, k) THEN Wrote(s, o, n, i2) ELSE Arr(s, o, n, i2, g)
  IN
  IF op.f = "kin_del" THEN Get(s, o, 0)
  ELSE IF op.f = "kin_parent" THEN (IF h < 0 \/ h >= Len(s.kn) THEN Bad(s, o, -2) ELSE Get(s, o, s.kn[h + 1].p))
  ELSE IF op.f = "kin_setMultiplier" /\ op.d[1] < 0 THEN Quiet(s, o, -999)
  ELSE IF ~Ok(s.kn, h) THEN Bad(s, o, err)
  ELSE CASE op.f = "kin_reactantStoichCoeff" -> IF i2 < 0 \/ i2 >= n \/ i3 < 0 \/ i3 >= nr THEN Bad(s, o, DE) ELSE Get(s, o, 1000 * NuR(s, k, i2 + 1, i3 + 1))
    [] op.f = "kin_productStoichCoeff" -> IF i2 < 0 \/ i2 >= n \/ i3 < 0 \/ i3 >= nr THEN Bad(s, o, DE) ELSE Get(s, o, 1000 * NuP(s, k, i2 + 1, i3 + 1))
    [] op.f = "kin_getReactionType" -> IF ~rx THEN Bad(s, o, -1) ELSE Str(s, o, IF kd = "surf" THEN "interface-Arrhenius" ELSE "Arrhenius", i3)
    [] op.f = "kin_getReactionString" -> IF ~rx THEN Bad(s, o, -1) ELSE Str(s, o, Eqn(kd)[i2 + 1], i3)
    [] op.f = "kin_getType" -> Str(s, o, IF kd = "surf" THEN "surface" ELSE "bulk", i2)
    [] op.f = "kin_setMultiplier" -> IF ~rx THEN Bad(s, o, -1) ELSE Done([s EXCEPT !.K[x].m[i2 + 1] = op.d[1]], o)
    [] op.f = "kin_isReversible" -> IF ~rx THEN Bad(s, o, -1) ELSE Get(s, o, Rev(kd)[i2 + 1])
    [] op.f = "kin_start" -> IF i2 < 0 \/ i2 >= Len(k.ph) THEN Bad(s, o, -1) ELSE Get(s, o, KStart(s, k, i2))
    [] op.f = "kin_phase" ->
         IF i2 < 0 \/ i2 >= Len(k.ph) THEN Bad(s, o, -1)
         ELSE LET t == k.ph[i2 + 1] mine == Index(s.th, t, s.kn[h + 1].p)
                  all == {j \in 1..Len(s.th) : s.th[j].o = t}
              IN IF mine >= 0 THEN Get(s, o, mine) ELSE IF all = {} THEN Bad(s, o, -1)
                 ELSE Fine(s, o, \E j \in all : o.r = j - 1)
    [] op.f = "kin_speciesIndex" -> IF Where(sp, op.s[1]) = 0 THEN Quiet(s, o, -1) ELSE Get(s, o, Where(sp, op.s[1]) - 1)
    [] op.f = "kin_phaseIndex" -> IF Where(k.nm, op.s[1]) = 0 THEN Bad(s, o, -1) ELSE Get(s, o, Where(k.nm, op.s[1]) - 1)
    [] op.f = "kin_getFwdRateConstants" -> IF i2 < nr THEN Bad(s, o, -1) ELSE Arr(s, o, nr, i2, LAMBDA i : 1000 * RK(kd)[i] * k.m[i])
    [] op.f = "kin_getRevRateConstants" -> IF i2 < nr THEN Bad(s, o, -1) ELSE Arr(s, o, nr, i2, LAMBDA i : IF Rev(kd)[i] = 1 THEN 1000 * RK(kd)[i] * k.m[i] ELSE 0)
    [] op.f = "kin_getFwdRatesOfProgress" -> Rates(LAMBDA i : Fwd(s, k, i))
    [] op.f = "kin_getRevRatesOfProgress" -> Rates(LAMBDA i : Bwd(s, k, i))
    [] op.f = "kin_getNetRatesOfProgress" -> Rates(LAMBDA i : Fwd(s, k, i) - Bwd(s, k, i))
    [] op.f = "kin_getEquilibriumConstants" -> IF i2 < nr THEN Bad(s, o, -1) ELSE Wrote(s, o, nr, i2)
    [] op.f = "kin_getCreationRates" -> Species(LAMBDA j : Creation(s, k, j))
    [] op.f = "kin_getDestructionRates" -> Species(LAMBDA j : Destruct(s, k, j))
    [] op.f = "kin_getNetProductionRates" -> Species(LAMBDA j : Creation(s, k, j) - Destruct(s, k, j))
    [] op.f = "kin_getSourceTerms" -> IF i2 < n THEN Bad(s, o, -1)
                                      ELSE LET w == Wrote(s, o, n, i2) dd == s.T[k.ph[1]].d IN
                                           IF Len(k.ph) > 1 THEN Bad(s, o, -1) ELSE IF ~Known(s, k) \/ dd <= 0 THEN w
                                           ELSE LET near(j) == LET e == dd * o.v[j] - MW(sp[j]) * (Creation(s, k, j) - Destruct(s, k, j)) IN e <= dd /\ -e <= dd
                                                IN [w EXCEPT !.ok = @ /\ \A j \in 1..n : near(j)]
    [] op.f = "kin_getDelta" -> IF i3 < nr THEN Bad(s, o, -1) ELSE IF i2 \in 0..5 THEN Wrote(s, o, nr, i3) ELSE Quiet(s, o, -999)
    [] op.f = "kin_advanceCoverages" -> Either(s, o)
    [] OTHER -> Res(FALSE, s, "unknown operation")

Tran(s, op, o) ==
  LET h == op.i[1]
      r == s.R[s.tr[h + 1].o]
      own == CHOOSE x \in 1..Len(s.S) : TRUE
      i2 == IF Len(op.i) > 1 THEN op.i[2] ELSE 0
      \* the phase: gas has three species, mix two; known from the handle's parent
      n == IF s.tr[h + 1].p >= 0 /\ s.tr[h + 1].p < Len(s.th) THEN 2 ELSE 2
  IN
  IF op.f = "trans_del" THEN Get(s, o, 0)
  ELSE IF op.f = "trans_parent" THEN (IF h < 0 \/ h >= Len(s.tr) THEN Bad(s, o, -2) ELSE Get(s, o, s.tr[h + 1].p))
  ELSE IF ~Ok(s.tr, h) THEN Bad(s, o, -1)
  ELSE CASE op.f = "trans_transportModel" -> Str(s, o, r.m, i2)
    [] op.f \in {"trans_viscosity", "trans_thermalConductivity"} ->
         IF r.m = "none" THEN Bad(s, o, -1) ELSE Fine(s, o, o.r \in {1, -1})
    [] OTHER ->        \* arrays: refused below the number of species, by the models that do not have the property
         IF i2 < 2 THEN Bad(s, o, -1)
         ELSE IF i2 >= 3 /\ r.m # "none" /\ op.f # "trans_getBinDiffCoeffs" THEN Fine(s, o, o.r = 0)
         ELSE Res(o.r \in {0, -1} /\ (o.r = -1 => o.e = 1) /\ o.c = 1 /\ SnapOk(s, o.snap), s, "any")

Func(s, op, o) ==
  LET h == IF Len(op.i) > 0 THEN op.i[1] ELSE 0
      g == IF Len(op.i) > 1 THEN op.i[2] ELSE h
      N(c, wild, nd) == New([s EXCEPT !.fn = Append(@, [on |-> 1, c |-> c, nd |-> IF nd THEN 1 ELSE 0, wild |-> IF wild \/ ~Tame(c) THEN 1 ELSE 0])], o, Len(s.fn))
      F == s.fn[h + 1] G == s.fn[g + 1]
      W == F.wild = 1 \/ G.wild = 1
  IN
  CASE op.f = "func_new_basic" -> IF op.s[1] # "constant" THEN Bad(s, o, -1) ELSE N(<<op.d[1]>>, FALSE, FALSE)
    [] op.f = "func_new_advanced" -> IF op.s[1] # "polynomial3" \/ op.d = << >> THEN Bad(s, o, -1) ELSE N(Backw(op.d), FALSE, TRUE)
    [] op.f = "ct_clearFunc" -> Done([s EXCEPT !.fn = AllOff(@)], o)
    [] OTHER ->
         IF ~Alive(s.fn, h) \/ ~Alive(s.fn, g) THEN Bad(s, o, IF op.f = "func_value" THEN DE ELSE -1)
         ELSE CASE op.f = "func_new_sum" \/ (op.f = "func_new_compound" /\ op.s[1] = "sum") -> N(PAdd(F.c, G.c, 1), W, F.nd = 1 \/ G.nd = 1)
                [] op.f = "func_new_diff" \/ (op.f = "func_new_compound" /\ op.s[1] = "diff") -> N(PAdd(F.c, G.c, -1), W, F.nd = 1 \/ G.nd = 1)
                [] op.f = "func_new_prod" \/ (op.f = "func_new_compound" /\ op.s[1] = "product") -> N(PMul(F.c, G.c), W, F.nd = 1 \/ G.nd = 1)
                [] op.f \in {"func_new_compound", "func_new_modified"} /\ op.s[1] = "nosuch" -> Bad(s, o, -1)
                [] op.f = "func_new_modified" -> N(IF op.s[1] = "times-constant" THEN PMul(F.c, <<op.d[1]>>) ELSE PAdd(F.c, <<op.d[1]>>, 1), W, F.nd = 1 \/ G.nd = 1)
                [] op.f = "func_del" -> Done([s EXCEPT !.fn = Off(@, h)], o)
                [] op.f = "func_derivative" -> IF F.nd = 1 /\ o.r = -1 THEN Bad(s, o, -1) ELSE N(PDer(F.c), W, F.nd = 1)
                [] op.f = "func_duplicate" -> N(F.c, W, F.nd = 1 \/ G.nd = 1)
                [] op.f = "func_value" -> IF W THEN Some(s, o) ELSE Get(s, o, 1000 * PVal(F.c, op.d[1]))
                [] OTHER -> Res(FALSE, s, "unknown operation")

\* -- mixtures -----------------------------------------------------------------------------------------------------------
MEl(s, m) == IF \E i \in 1..Len(m.ph) : s.T[m.ph[i]].kd = "mix" THEN 2 ELSE IF m.ph = << >> THEN 0 ELSE 1
\* phase number (from 1) and species number within it of mixture species j (from 1)
MPh(s, m, j) == LET RECURSIVE P(_, _)
                    P(i, left) == IF left <= Len(Sp(s.T[m.ph[i]].kd)) THEN <<i, left>> ELSE P(i + 1, left - Len(Sp(s.T[m.ph[i]].kd)))
                IN P(1, j)
MBase(s, m, p) == LET RECURSIVE B(_)
                      B(i) == IF i >= p THEN 0 ELSE Len(Sp(s.T[m.ph[i]].kd)) + B(i + 1)
                  IN B(1)
\* the mixture imposes its temperature, pressure and compositions on its phases: followed no further
Push(s, x) == LET m == s.mx[x] IN
  [s EXCEPT !.T = [o \in 1..Len(s.T) |-> IF o \in Range(m.ph) THEN [s.T[o] EXCEPT !.t = -1, !.d = -1, !.hot = 0] ELSE s.T[o]], !.mx[x].init = TRUE]
Mix(s, op, o) ==
  LET h == IF Len(op.i) > 0 THEN op.i[1] ELSE 0
      D == {"mix_nAtoms", "mix_phaseMoles", "mix_temperature", "mix_charge", "mix_phaseCharge", "mix_speciesMoles", "mix_elementMoles", "mix_moleFraction"}
      err == IF op.f \in D THEN DE ELSE -1
      x == h + 1 m == s.mx[x] sp == MSp(s, m) n == Len(sp) np == Len(m.ph)
      i2 == IF Len(op.i) > 1 THEN op.i[2] ELSE 0
      i3 == IF Len(op.i) > 2 THEN op.i[3] ELSE 0
      PhIn(i) == i >= 0 /\ i < np
      SpIn(i) == i >= 0 /\ i < n
  IN
  CASE op.f = "mix_new" -> New([s EXCEPT !.mx = Append(@, [on |-> 1, ph |-> << >>, n |-> << >>, k |-> << >>, init |-> FALSE])], o, Len(s.mx))
    [] op.f = "ct_clearMix" -> Done([s EXCEPT !.mx = AllOff(@)], o)
    [] OTHER ->
    IF ~Alive(s.mx, h) THEN Bad(s, o, err)
    ELSE CASE op.f = "mix_del" -> Done([s EXCEPT !.mx = Off(@, h)], o)
      [] op.f = "mix_addPhase" ->
           IF ~Ok(s.th, i2) \/ m.init THEN Bad(s, o, -1)
           ELSE Done([s EXCEPT !.mx[x].ph = Append(@, s.th[i2 + 1].o), !.mx[x].n = Append(@, op.d[1]), !.mx[x].k = Append(@, -1)], o)
      [] op.f = "mix_init" -> Done(Push(s, x), o)
      [] op.f = "mix_updatePhases" -> Done([Push(s, x) EXCEPT !.mx[x].init = m.init], o)
      [] op.f = "mix_nElements" -> Get(s, o, MEl(s, m))
      [] op.f = "mix_elementIndex" -> LET e == IF MEl(s, m) = 0 THEN 0 ELSE Where(<<"Xe1", "Ze1">>, op.s[1]) IN
           IF e = 0 \/ e > MEl(s, m) THEN Quiet(s, o, -1) ELSE Fine(s, o, o.r \in 0..(MEl(s, m) - 1))
      [] op.f = "mix_nSpecies" -> Get(s, o, n)
      [] op.f = "mix_nPhases" -> Get(s, o, np)
      [] op.f = "mix_speciesIndex" ->
           IF ~PhIn(i3) \/ ~SpIn(i2) THEN Bad(s, o, -1)
           ELSE IF i2 < Len(Sp(s.T[m.ph[i3 + 1]].kd)) THEN Get(s, o, MBase(s, m, i3 + 1) + i2)
           ELSE Res(o.c = 1 /\ SnapOk(s, o.snap), s, "any")
      [] op.f = "mix_nAtoms" -> IF ~SpIn(i2) \/ i3 < 0 \/ i3 >= MEl(s, m) THEN Bad(s, o, DE) ELSE Some(s, o)
      [] op.f = "mix_phaseMoles" -> IF ~PhIn(i2) THEN Bad(s, o, DE) ELSE Get(s, o, 1000 * m.n[i2 + 1])
      [] op.f = "mix_setPhaseMoles" -> IF ~PhIn(i2) \/ op.d[1] < 0 THEN Bad(s, o, -1) ELSE Done([s EXCEPT !.mx[x].n[i2 + 1] = op.d[1], !.mx[x].k[i2 + 1] = -1], o)
      [] op.f = "mix_setMoles" ->
           IF Len(op.d) < n THEN Bad(s, o, -1)
           ELSE LET tot(p) == LET b == MBase(s, m, p) RECURSIVE A(_)
                                  A(j) == IF j > Len(Sp(s.T[m.ph[p]].kd)) THEN 0 ELSE op.d[b + j] + A(j + 1)
                              IN A(1)
                    w == Push(s, x)
                IN Done([w EXCEPT !.mx[x].n = [p \in 1..np |-> tot(p)],
                                  !.mx[x].k = [p \in 1..np |-> IF tot(p) = 0 THEN -1 ELSE 1]], o)
      [] op.f = "mix_setTemperature" -> IF op.d[1] < 0 THEN Bad(s, o, -1) ELSE Done(Push(s, x), o)
      [] op.f = "mix_setPressure" -> IF op.d[1] < 0 THEN Bad(s, o, -1) ELSE Done(Push(s, x), o)
      [] op.f = "mix_charge" -> Get(s, o, 0)
      [] op.f = "mix_phaseCharge" -> IF ~PhIn(i2) THEN Bad(s, o, DE) ELSE Get(s, o, 0)
      [] op.f = "mix_speciesMoles" -> IF ~SpIn(i2) THEN Bad(s, o, DE) ELSE
           LET p == MPh(s, m, i2 + 1)[1] IN Fine(s, o, o.r >= Min(0, 1000 * m.n[p]) /\ o.r <= Max(0, 1000 * m.n[p]))
      [] op.f = "mix_elementMoles" -> IF i2 < 0 \/ i2 >= MEl(s, m) THEN Bad(s, o, DE) ELSE Some(s, o)
      [] op.f = "mix_moleFraction" -> IF ~SpIn(i2) THEN Bad(s, o, DE) ELSE Fine(s, o, o.r >= 0 /\ o.r <= 1000)
      [] op.f = "mix_speciesPhaseIndex" -> IF ~SpIn(i2) THEN Bad(s, o, -1) ELSE Get(s, o, MPh(s, m, i2 + 1)[1] - 1)
      [] OTHER -> Res(FALSE, s, "unknown operation")

\* -- reactors, networks, connectors, surfaces ---------------------------------------------------------------------------
Rtype(t) == t
Rx(s, op, o) ==
  LET h == IF Len(op.i) > 0 THEN op.i[1] ELSE 0
      i2 == IF Len(op.i) > 1 THEN op.i[2] ELSE 0
      tab == IF op.f \in {"reactornet_del", "reactornet_setTolerances", "reactornet_addreactor", "reactornet_sensitivity", "reactornet_setInitialTime"} THEN s.nt
             ELSE IF SubSeq(op.f, 1, 4) \in {"conn", "flow", "wall"} THEN s.cn
             ELSE IF Len(op.f) > 14 /\ SubSeq(op.f, 1, 14) = "reactorsurface" THEN s.sf ELSE s.rx
      err == IF op.f \in {"reactor_massFraction", "reactor_mass"} THEN DE ELSE IF op.f = "reactornet_sensitivity" THEN -1000 ELSE -1
      x == h + 1 r == s.rx[x] c == s.cn[x]
      real == r.ty # "Reservoir"
      con == s.S[r.s]
  IN
  CASE op.f = "reactor_new" ->
         IF ~Ok(s.sol, h) \/ op.s[1] = "nosuch" THEN Bad(s, o, -1)
         ELSE IF SOf(s, h).kd = "surf" /\ o.r = -1 THEN Bad(s, o, -1)
         ELSE LET so == s.sol[h + 1].o t == s.T[s.S[so].th] IN
              New([s EXCEPT !.rx = Append(@, [on |-> 1, nm |-> op.s[2], ty |-> Rtype(op.s[1]), v |-> 1, t |-> t.t, d |-> t.d, s |-> so, hot |-> t.hot])], o, Len(s.rx))
    [] op.f = "reactornet_new" -> New([s EXCEPT !.nt = Append(@, [on |-> 1, r |-> 1, a |-> 1])], o, Len(s.nt))
    [] op.f = "connector_new" ->
         IF ~Alive(s.rx, h) \/ ~Alive(s.rx, i2) \/ op.s[1] = "nosuch" THEN Bad(s, o, -1)
         ELSE New([s EXCEPT !.cn = Append(@, [on |-> 1, nm |-> op.s[2], ty |-> op.s[1], a |-> 1])], o, Len(s.cn))
    [] op.f = "reactorsurface_new" -> New([s EXCEPT !.sf = Append(@, [on |-> 1, nm |-> op.s[1], a |-> 1, k |-> 0, in |-> FALSE])], o, Len(s.sf))
    [] op.f = "ct_clearReactors" -> Done([s EXCEPT !.rx = AllOff(@), !.nt = AllOff(@), !.cn = AllOff(@), !.sf = AllOff(@)], o)
    [] OTHER ->
    IF ~Alive(tab, h) THEN Bad(s, o, err)
    ELSE CASE op.f = "reactor_del" -> Done([s EXCEPT !.rx = Off(@, h)], o)
      [] op.f = "reactor_type" -> Str(s, o, r.ty, i2)
      [] op.f = "reactor_name" -> Str(s, o, r.nm, i2)
      [] op.f = "reactor_setName" -> Done([s EXCEPT !.rx[x].nm = op.s[1]], o)
      [] op.f = "reactor_setInitialVolume" -> Done([s EXCEPT !.rx[x].v = op.d[1]], o)
      [] op.f = "reactor_massFraction" -> IF i2 < 0 \/ i2 >= Len(Sp(con.kd)) THEN Bad(s, o, DE) ELSE IF r.hot = 0 THEN Some(s, o) ELSE Get(s, o, IF r.hot = i2 + 1 THEN 1000 ELSE 0)
      [] op.f = "reactor_mass" -> IF r.d < 0 THEN Some(s, o) ELSE Get(s, o, 1000 * r.d * r.v)
      [] op.f \in {"reactor_setChemistry", "reactor_setEnergy"} -> IF real THEN Done(s, o) ELSE Bad(s, o, -1)
      [] op.f = "reactor_setMassFlowRate" -> Bad(s, o, -1)
      [] op.f = "reactor_nSensParams" -> IF real THEN Some(s, o) ELSE Bad(s, o, -1)
      [] op.f = "reactor_addSensitivityReaction" -> Either(s, o)
      [] op.f = "reactornet_del" -> Done([s EXCEPT !.nt = Off(@, h)], o)
      [] op.f = "reactornet_setTolerances" ->
           LET a == op.d[1] b == op.d[2] IN
           Done([s EXCEPT !.nt[x].r = IF a < 0 THEN @ ELSE a, !.nt[x].a = IF b < 0 THEN @ ELSE b], o)
      [] op.f = "reactornet_setInitialTime" -> Done(s, o)
      [] op.f = "reactornet_addreactor" ->
           IF ~Alive(s.rx, i2) THEN Bad(s, o, -1)
           ELSE IF s.rx[i2 + 1].ty = "Reservoir" THEN Bad(s, o, -999) ELSE Either(s, o)
      [] op.f = "connector_del" -> Done([s EXCEPT !.cn = Off(@, h)], o)
      [] op.f = "connector_type" -> Str(s, o, c.ty, i2)
      [] op.f = "connector_name" -> Str(s, o, c.nm, i2)
      [] op.f = "connector_setName" -> Done([s EXCEPT !.cn[x].nm = op.s[1]], o)
      [] op.f = "wall_setArea" -> IF c.ty # "Wall" THEN Bad(s, o, -1) ELSE Done([s EXCEPT !.cn[x].a = op.d[1]], o)
      [] op.f \in {"wall_setThermalResistance", "wall_setHeatTransferCoeff", "wall_setExpansionRateCoeff", "wall_setEmissivity"} ->
           IF c.ty # "Wall" THEN Bad(s, o, -1) ELSE Done(s, o)
      [] op.f \in {"wall_setVelocity", "wall_setHeatFlux"} -> IF c.ty # "Wall" \/ ~Alive(s.fn, i2) THEN Bad(s, o, -1) ELSE Done(s, o)
      [] op.f \in {"flowdev_setTimeFunction", "flowdev_setPressureFunction"} ->
           IF c.ty = "Wall" \/ ~Alive(s.fn, i2) THEN Bad(s, o, -1) ELSE Either(s, o)
      [] op.f = "flowdev_setPrimary" -> IF c.ty = "Wall" \/ ~Alive(s.cn, i2) \/ s.cn[i2 + 1].ty = "Wall" THEN Bad(s, o, -1) ELSE Either(s, o)
      [] op.f \in {"flowdev_setMassFlowCoeff", "flowdev_setValveCoeff", "flowdev_setPressureCoeff"} ->
           LET need == CASE op.f = "flowdev_setMassFlowCoeff" -> "MassFlowController" [] op.f = "flowdev_setValveCoeff" -> "Valve" [] OTHER -> "PressureController" IN
           IF c.ty # need THEN Bad(s, o, -1) ELSE Done(s, o)
      [] op.f = "reactorsurface_del" -> Done([s EXCEPT !.sf = Off(@, h)], o)
      [] op.f = "reactorsurface_name" -> Str(s, o, s.sf[x].nm, i2)
      [] op.f = "reactorsurface_setName" -> Done([s EXCEPT !.sf[x].nm = op.s[1]], o)
      [] op.f = "reactorsurface_install" -> IF ~Alive(s.rx, i2) THEN Bad(s, o, -1) ELSE Done([s EXCEPT !.sf[x].in = s.rx[i2 + 1].ty # "Reservoir"], o)
      [] op.f = "reactorsurface_setkinetics" ->
           IF ~Ok(s.kn, i2) \/ KOf(s, i2).kd # "surf" THEN Bad(s, o, -1) ELSE Done([s EXCEPT !.sf[x].k = NR("surf")], o)
      [] op.f = "reactorsurface_setArea" -> Done([s EXCEPT !.sf[x].a = op.d[1]], o)
      [] op.f = "reactorsurface_addSensitivityReaction" -> IF i2 < 0 \/ i2 >= s.sf[x].k THEN Bad(s, o, -1) ELSE Either(s, o)
      [] OTHER -> Res(FALSE, s, "unknown operation")

\* -- one-dimensional domains --------------------------------------------------------------------------------------------
DName(d, i) == IF Flow(d.ty) THEN (CASE i = 1 -> "velocity" [] i = 2 -> "spread_rate" [] i = 3 -> "T" [] i = 4 -> "lambda" [] i = 5 -> "eField" [] i = 6 -> "Uo" [] OTHER -> Sp(d.kd)[i - d.k + Len(Sp(d.kd))])
               ELSE IF d.ty = "reacting-surface" THEN Sp(d.kd)[i] ELSE IF i = 1 THEN "component 0" ELSE "component 1"
Names(d) == [i \in 1..d.k |-> DName(d, i)]
Bdry(d) == d.ty \notin {"free-flow", "axisymmetric-flow", "reacting-surface"}
Dom(s, op, o) ==
  LET h == IF Len(op.i) > 0 THEN op.i[1] ELSE 0
      i2 == IF Len(op.i) > 1 THEN op.i[2] ELSE 0
      i3 == IF Len(op.i) > 2 THEN op.i[3] ELSE 0
      i4 == IF Len(op.i) > 3 THEN op.i[4] ELSE 0
      err == IF op.f \in {"domain_grid", "domain_lowerBound", "domain_upperBound", "bdry_mdot", "bdry_temperature", "bdry_massFraction", "flow1D_pressure", "sim1D_value", "sim1D_workValue"} THEN DE ELSE -1
      x == h + 1 d == s.dm[x]
      sim == SubSeq(op.f, 1, 3) = "sim"
      C == i2 >= 0 /\ i2 < d.k
  IN
  CASE op.f = "domain_new" ->
         IF ~Ok(s.sol, h) \/ op.s[1] = "nosuch" \/ ((SOf(s, h).kd = "surf") # (op.s[1] = "reacting-surface") /\ o.r = -1) \/ (Flow(op.s[1]) /\ (SOf(s, h).tr = 0 \/ s.R[SOf(s, h).tr].m = "none")) THEN Bad(s, o, -1)
         ELSE LET kd == SOf(s, h).kd
                  bs == IF SOf(s, h).adj # << >> THEN 2 ELSE 0
                  k == IF Flow(op.s[1]) THEN 6 + Len(Sp(kd)) ELSE 1
              IN New([s EXCEPT !.dm = Append(@, [on |-> 1, ty |-> op.s[1], n |-> IF Flow(op.s[1]) /\ Len(o.snap.dom) > Len(s.dm) THEN o.snap.dom[Len(s.dm) + 1].n ELSE 1, k |-> k, i |-> -1, kd |-> kd, s |-> s.sol[h + 1].o,
                                                 id |-> op.s[2], lo |-> [j \in 1..k |-> 0], hi |-> [j \in 1..k |-> 0], set |-> {}, m |-> -1, t |-> -1, kept |-> 0])], o, Len(s.dm))
    [] op.f = "sim1D_new" ->
         IF op.i = << >> \/ \E j \in 1..Len(op.i) : ~Alive(s.dm, op.i[j])
         THEN Bad([s EXCEPT !.dm = [j \in 1..Len(s.dm) |-> IF \E q \in 1..Len(op.i) : op.i[q] = j - 1 /\ s.dm[j].on = 1 THEN [s.dm[j] EXCEPT !.kept = 1] ELSE s.dm[j]]], o, -1)
         ELSE IF o.r = -1 THEN Res(o.e = 1 /\ o.c = 1, [s EXCEPT !.dm = [j \in 1..Len(s.dm) |-> [s.dm[j] EXCEPT !.i = o.snap.dom[j].i, !.k = IF Flow(s.dm[j].ty) THEN @ ELSE o.snap.dom[j].k, !.kept = IF \E q \in 1..Len(op.i) : op.i[q] = j - 1 THEN 1 ELSE @]]], "any")
         ELSE New([s EXCEPT !.sm = Append(@, [on |-> 1, d |-> op.i, v |-> << >>]),
                            !.dm = [j \in 1..Len(s.dm) |-> IF \E q \in 1..Len(op.i) : op.i[q] = j - 1
                                      THEN [s.dm[j] EXCEPT !.i = (CHOOSE q \in 1..Len(op.i) : op.i[q] = j - 1) - 1, !.kept = 1,
                                             !.k = IF ~Flow(s.dm[j].ty) /\ Len(o.snap.dom) = Len(s.dm) /\ o.snap.dom[j].k \in {IF Bdry(s.dm[j]) THEN 0 ELSE Len(Sp(s.dm[j].kd)), 1} THEN o.snap.dom[j].k ELSE @] ELSE s.dm[j]]], o, Len(s.sm))
    [] op.f = "ct_clearOneDim" -> Done([s EXCEPT !.dm = AllOff(@), !.sm = AllOff(@)], o)
    [] OTHER ->
    IF ~Alive(IF sim THEN s.sm ELSE s.dm, h) THEN Bad(s, o, err)
    ELSE CASE op.f = "domain_del" -> Done([s EXCEPT !.dm = [Off(@, h) EXCEPT ![x].kept = 1]], o)
      [] op.f = "domain_type" -> Str(s, o, d.ty, i2)
      [] op.f = "domain_componentName" -> IF ~C THEN Bad(s, o, -1) ELSE Str(s, o, DName(d, i2 + 1), i3)
      [] op.f = "domain_componentIndex" -> LET w == Where(Names(d), op.s[1]) IN IF w = 0 THEN Bad(s, o, -1) ELSE Get(s, o, w - 1)
      [] op.f = "domain_grid" -> IF i2 < 0 \/ i2 >= d.n THEN Bad(s, o, DE) ELSE Some(s, o)
      [] op.f = "domain_setBounds" -> IF ~C THEN Bad(s, o, -1) ELSE Done([s EXCEPT !.dm[x].lo[i2 + 1] = op.d[1], !.dm[x].hi[i2 + 1] = op.d[2], !.dm[x].set = @ \cup {i2 + 1}], o)
      [] op.f \in {"domain_lowerBound", "domain_upperBound"} ->
           IF ~C THEN Bad(s, o, DE) ELSE IF i2 + 1 \notin d.set THEN Some(s, o)
           ELSE Get(s, o, 1000 * (IF op.f = "domain_lowerBound" THEN d.lo[i2 + 1] ELSE d.hi[i2 + 1]))
      [] op.f \in {"domain_setSteadyTolerances", "domain_setTransientTolerances"} -> IF ~C THEN Bad(s, o, -1) ELSE Done(s, o)
      [] op.f = "bdry_setMdot" -> IF Flow(d.ty) THEN Bad(s, o, -1) ELSE Done([s EXCEPT !.dm[x].m = op.d[1]], o)
      [] op.f = "bdry_setTemperature" -> IF Flow(d.ty) THEN Bad(s, o, -1) ELSE Done([s EXCEPT !.dm[x].t = op.d[1]], o)
      [] op.f = "bdry_mdot" -> IF Flow(d.ty) THEN Bad(s, o, DE) ELSE IF d.m = -1 THEN Some(s, o) ELSE Get(s, o, 1000 * d.m)
      [] op.f = "bdry_temperature" -> IF Flow(d.ty) THEN Bad(s, o, DE) ELSE IF d.t = -1 THEN Some(s, o) ELSE Get(s, o, 1000 * d.t)
      [] op.f = "bdry_massFraction" -> IF Flow(d.ty) \/ i2 < 0 \/ i2 >= 3 THEN Bad(s, o, DE) ELSE Res((o.r = DE) = (o.e = 1) /\ o.c = 1 /\ SnapOk(s, o.snap), s, "either")
      [] op.f = "bdry_setMoleFractions" -> IF Flow(d.ty) THEN Bad(s, o, -1) ELSE
             LET w == [s EXCEPT !.T = [j \in 1..Len(s.T) |-> IF d.s > 0 /\ j \in {s.S[q].th : q \in {d.s} \cup Range(s.S[d.s].adj)} THEN [s.T[j] EXCEPT !.hot = 0] ELSE s.T[j]]] IN Either(w, o)
      [] op.f = "reactingsurf_enableCoverageEqs" -> IF d.ty # "reacting-surface" THEN Bad(s, o, -1) ELSE Done(s, o)
      [] op.f = "flow1D_setPressure" -> IF ~Flow(d.ty) THEN Bad(s, o, -1) ELSE Done([s EXCEPT !.dm[x].m = op.d[1]], o)
      [] op.f = "flow1D_pressure" -> IF ~Flow(d.ty) THEN Bad(s, o, DE) ELSE IF d.m = -1 THEN Some(s, o) ELSE Get(s, o, 1000 * d.m)
      [] op.f = "sim1D_del" -> Done([s EXCEPT !.sm = Off(@, h)], o)
      [] OTHER ->
         LET v == s.sm[x]
             din == i2 >= 0 /\ i2 < Len(v.d)
             e == s.dm[v.d[i2 + 1] + 1]
             cin == din /\ i3 >= 0 /\ i3 < e.k
             pin == cin /\ i4 >= 0 /\ i4 < e.n
             key == <<i2, i3, i4>>
             have == {q \in 1..Len(v.v) : v.v[q][1] = key}
             put == [s EXCEPT !.sm[x].v = Append(SelectSeq(@, LAMBDA q : q[1] # key), <<key, op.d[1]>>)]
             forget == [s EXCEPT !.sm[x].v = SelectSeq(@, LAMBDA q : q[1][1] # i2 \/ q[1][2] # i3)]
             fill == [forget EXCEPT !.sm[x].v = @ \o [q \in 1..e.n |-> <<<<i2, i3, q - 1>>, op.d[1]>>]]
         IN
         CASE op.f = "sim1D_setValue" -> IF ~pin THEN Bad(s, o, -1) ELSE Done(put, o)
           [] op.f = "sim1D_value" -> IF ~pin THEN Bad(s, o, DE) ELSE IF have = {} THEN Some(s, o) ELSE Get(s, o, 1000 * v.v[CHOOSE q \in have : TRUE][2])
           [] op.f = "sim1D_workValue" -> IF ~pin THEN Bad(s, o, DE) ELSE Some(s, o)
           [] op.f \in {"sim1D_setFlatProfile", "sim1D_setProfile"} -> IF ~cin THEN Bad(s, o, -1) ELSE Done(fill, o)
           [] op.f = "sim1D_setRefineCriteria" -> IF i2 >= 0 /\ ~din THEN Bad(s, o, -1) ELSE Either(s, o)
           [] op.f = "sim1D_setGridMin" -> IF i2 >= 0 /\ ~din THEN Bad(s, o, -1) ELSE Either(s, o)
           [] op.f = "sim1D_domainIndex" -> LET w == {q \in 1..Len(v.d) : s.dm[v.d[q] + 1].id = op.s[1]} IN
                IF w = {} THEN Bad(s, o, -1) ELSE Fine(s, o, \E q \in w : o.r = q - 1)
           [] OTHER -> Res(FALSE, s, "unknown operation")

Diag(s, op, o) ==
  LET h == IF Len(op.i) > 0 THEN op.i[1] ELSE 0 d == SubSeq(op.f, 1, 2) = "rd" IN
  CASE op.f = "rdiag_new" -> New([s EXCEPT !.dg = Append(@, [on |-> 1])], o, Len(s.dg))
    [] op.f = "rbuild_new" -> New([s EXCEPT !.bl = Append(@, [on |-> 1])], o, Len(s.bl))
    [] op.f = "ct_clearReactionPath" -> Done([s EXCEPT !.dg = AllOff(@), !.bl = AllOff(@)], o)
    [] OTHER -> IF ~Alive(IF d THEN s.dg ELSE s.bl, h) THEN Bad(s, o, -1)
                ELSE CASE op.f = "rdiag_del" -> Done([s EXCEPT !.dg = Off(@, h)], o)
                       [] op.f = "rbuild_del" -> Done([s EXCEPT !.bl = Off(@, h)], o)
                       [] op.f = "rbuild_init" -> IF ~Ok(s.kn, op.i[2]) THEN Bad(s, o, -1) ELSE Either(s, o)
                       [] OTHER -> Done(s, o)

Check(s, op, o) ==
  LET f == op.f p == SubSeq(f, 1, 4) IN
  IF p = "soln" \/ f \in {"ct_clearStorage", "ct_resetStorage"} THEN Sol(s, op, o)
  ELSE IF p = "ther" THEN Thermo(s, op, o)
  ELSE IF p = "kin_" THEN Kin(s, op, o)
  ELSE IF p = "tran" THEN Tran(s, op, o)
  ELSE IF p = "func" \/ f = "ct_clearFunc" THEN Func(s, op, o)
  ELSE IF p = "mix_" \/ f = "ct_clearMix" THEN Mix(s, op, o)
  ELSE IF (p \in {"reac", "conn", "flow", "wall"} /\ f \notin {"reactingsurf_enableCoverageEqs", "flow1D_setPressure", "flow1D_pressure"}) \/ f = "ct_clearReactors" THEN Rx(s, op, o)
  ELSE IF p \in {"rdia", "rbui"} \/ f = "ct_clearReactionPath" THEN Diag(s, op, o)
  ELSE Dom(s, op, o)

Inv(s) == /\ \A i \in 1..Len(s.sol) : s.sol[i].o <= Len(s.S)
          /\ \A i \in 1..Len(s.th) : s.th[i].p < Len(s.sol)

\* -- small model: handles onto shared objects ---------------------------------------------------------------------------
\* a sequence of creations, second handles (adjacent) and deletions: deleting a handle affects no other handle
Init == st = InitSt([x |-> 0])
Create == st' = Handle(Make(st, "gas", "none", << >>), Len(st.S) + 1)
Iface == \E a \in 0..(Len(st.sol) - 1) : Ok(st.sol, a) /\ SOf(st, a).kd # "surf" /\ LET w == Make(st, "surf", "none", <<st.sol[a + 1].o>>) IN st' = Handle(w, Len(w.S))
Again == \E h \in 0..(Len(st.sol) - 1) : Ok(st.sol, h) /\ SOf(st, h).adj # << >> /\ st' = Handle(st, SOf(st, h).adj[1])
Delete == \E h \in 0..(Len(st.sol) - 1) : Ok(st.sol, h) /\ LET x == SOf(st, h) IN
          st' = [st EXCEPT !.sol = Drop(@, h), !.th = Drop(@, Index(st.th, x.th, h)), !.kn = Drop(@, Index(st.kn, x.kn, h)), !.tr = Drop(@, Index(st.tr, x.tr, h))]
Swap == \E h \in 0..(Len(st.sol) - 1) : Ok(st.sol, h) /\ LET so == st.sol[h + 1].o IN
          st' = [st EXCEPT !.tr = Append(Drop(@, Index(st.tr, st.S[so].tr, h)), [o |-> Len(st.R) + 1, p |-> h]), !.R = Append(@, [m |-> "none"]), !.S[so].tr = Len(st.R) + 1]
Next == Create \/ Iface \/ Again \/ Delete \/ Swap
MCBound == Len(st.sol) <= 4 /\ Len(st.R) <= 5
\* every living solution handle has living phase and kinetics handles of its own; a deleted one has none; objects of living
\* handles are pinned
MCInv == /\ Inv(st)
         /\ \A i \in 1..Len(st.sol) : st.sol[i].o > 0 =>
              /\ Index(st.th, SOf(st, i - 1).th, i - 1) >= 0 /\ Index(st.kn, SOf(st, i - 1).kn, i - 1) >= 0
              /\ st.th[Index(st.th, SOf(st, i - 1).th, i - 1) + 1].p = i - 1
              /\ st.sol[i].o \in Pinned(st)
         /\ \A i \in 1..Len(st.sol) : st.sol[i].o = 0 => ~\E j \in 1..Len(st.th) : st.th[j].o > 0 /\ st.th[j].p = i - 1
===============================================================================

---- MODULE RegSpec ----
(* Elements, species, names and composition of one phase, with the objects that lock its species list.
   Element weights are given in micro-units (atomic mass * 10^6); -1 asks for a look-up in table cfg.known. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLE st

Abs(x) == IF x < 0 THEN -x ELSE x
SumTo(n, f(_)) == LET RECURSIVE S(_)
                      S(k) == IF k = 0 THEN 0 ELSE f(k) + S(k - 1)
                  IN S(n)
Res(ok, s, exp) == [ok |-> ok, st |-> s, exp |-> exp]
Idx(q, P(_)) == LET S == {i \in 1..Len(q) : P(q[i])} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
InitSt(cfg) == [known |-> cfg.known, el |-> << >>, sp |-> << >>, alias |-> << >>, policy |-> cfg.policy, cs |-> FALSE, locks |-> 0, comp |-> << >>]

NE(s) == Len(s.el)
NS(s) == Len(s.sp)
ElIdx(s, n) == Idx(s.el, LAMBDA e : e.n = n)
Known(s, n) == \E i \in 1..Len(s.known) : s.known[i].n = n
Weight(s, n) == s.known[CHOOSE i \in 1..Len(s.known) : s.known[i].n = n].w
\* outcome of a request to add element n with weight request w: 0 refused, otherwise the actual weight + 1
ElOut(s, n, w) == LET ww == IF w = -1 THEN (IF Known(s, n) THEN Weight(s, n) ELSE -1)
                            ELSE IF w = 0 THEN (IF Known(s, n) THEN Weight(s, n) ELSE 0) ELSE w
                      i == ElIdx(s, n)
                  IN IF ww = -1 THEN 0 ELSE IF i = 0 THEN ww + 1 ELSE IF Abs(s.el[i].w - ww) <= 0 THEN ww + 1 ELSE 0
Widen(s) == [s EXCEPT !.sp = [k \in 1..NS(s) |-> [s.sp[k] EXCEPT !.c = Append(@, 0)]]]
PutEl(s, n, w) == IF ElIdx(s, n) > 0 THEN s ELSE [Widen(s) EXCEPT !.el = Append(@, [n |-> n, w |-> w])]

\* look-up of a name (nl: the name in lower case): 0 unknown, -1 ambiguous
Exact(s, n) == Idx(s.sp, LAMBDA x : x.n = n)
AliasOf(s, n) == LET i == Idx(s.alias, LAMBDA a : a.n = n) IN IF i = 0 THEN 0 ELSE s.alias[i].k
Lower(s, nl) == LET S == {k \in 1..NS(s) : s.sp[k].l = nl} IN IF S = {} THEN 0 ELSE IF Cardinality(S) > 1 THEN -1 ELSE CHOOSE k \in S : TRUE
Look(s, n, nl) == IF Exact(s, n) > 0 THEN Exact(s, n) ELSE IF AliasOf(s, n) > 0 THEN AliasOf(s, n) ELSE IF s.cs THEN 0 ELSE Lower(s, nl)

\* adding the species x: [n, l, c: sequence of <<element, count>>, q: charge, sz, p0, th: has thermo]
Missing(s, x) == {i \in 1..Len(x.c) : ElIdx(s, x.c[i][1]) = 0}
Ref(s) == IF NS(s) = 0 THEN 0 ELSE s.sp[1].p0
ECount(x) == LET i == Idx(x.c, LAMBDA p : p[1] = "E") IN IF i = 0 THEN 0 ELSE x.c[i][2]
Fault(s, x) == \/ ~x.th \/ s.locks > 0 \/ Exact(s, x.n) > 0
               \/ s.policy = "error" /\ Missing(s, x) # {}
               \/ s.policy = "add" /\ \E i \in Missing(s, x) : ~Known(s, x.c[i][1])
               \/ ~(s.policy = "ignore" /\ Missing(s, x) # {})
                  /\ ((x.q # 0 /\ ECount(x) # 0 /\ ECount(x) # -x.q) \/ (NS(s) > 0 /\ x.p0 # Ref(s)))
AddOut(s, x) == IF ~x.th \/ s.locks > 0 \/ Exact(s, x.n) > 0 THEN -1
                ELSE IF Fault(s, x) THEN -1 ELSE IF Missing(s, x) # {} /\ s.policy = "ignore" THEN 0 ELSE 1
RECURSIVE PutAll(_, _, _)
PutAll(s, c, i) == IF i > Len(c) THEN s
                   ELSE PutAll(IF ElIdx(s, c[i][1]) = 0 THEN PutEl(s, c[i][1], Weight(s, c[i][1])) ELSE s, c, i + 1)
PutSp(s, x) ==
  LET a == PutAll(s, x.c, 1)
      b == IF x.q # 0 /\ ElIdx(a, "E") = 0 THEN PutEl(a, "E", 545) ELSE a
      cnt(m) == LET i == Idx(x.c, LAMBDA p : p[1] = b.el[m].n)
                IN IF b.el[m].n = "E" /\ x.q # 0 THEN -x.q ELSE IF i = 0 THEN 0 ELSE x.c[i][2]
      r == [n |-> x.n, l |-> x.l, c |-> [m \in 1..NE(b) |-> cnt(m)], q |-> x.q, sz |-> x.sz, p0 |-> x.p0, h |-> x.h,
            in |-> {<<x.c[i][1], x.c[i][2]>> : i \in 1..Len(x.c)}]
  IN [b EXCEPT !.sp = Append(@, r), !.comp = Append(@, IF Len(@) = 0 THEN 1 ELSE 0),
               !.alias = SelectSeq(@, LAMBDA p : p.n # x.n)]

\* what the phase reports
Mw(s, k) == SumTo(NE(s), LAMBDA m : s.sp[k].c[m] * s.el[m].w)
Dump(s) == [el |-> [m \in 1..NE(s) |-> s.el[m].n], w |-> [m \in 1..NE(s) |-> s.el[m].w],
            eidx |-> [m \in 1..NE(s) |-> ElIdx(s, s.el[m].n) - 1], sp |-> [k \in 1..NS(s) |-> s.sp[k].n],
            idx |-> [k \in 1..NS(s) |-> k - 1],
            c |-> [k \in 1..NS(s) |-> s.sp[k].c], q |-> [k \in 1..NS(s) |-> s.sp[k].q], sz |-> [k \in 1..NS(s) |-> s.sp[k].sz],
            h |-> [k \in 1..NS(s) |-> s.sp[k].h], x |-> s.comp,
            oob |-> 1]
SameDump(o, s) == LET d == Dump(s)
                  IN /\ \A f \in DOMAIN d : o[f] = d[f]
                     /\ Len(o.mw) = NS(s) /\ Len(o.imw) = NS(s)
                     /\ \A k \in 1..NS(s) : Abs(o.mw[k] - Mw(s, k)) <= 40 /\ o.imw[k] = 1
Isomers(s, c) == {s.sp[k].n : k \in {j \in 1..NS(s) : s.sp[j].in = {<<c[i][1], c[i][2]>> : i \in 1..Len(c)}}}
SetComp(s, m) == [k \in 1..NS(s) |-> SumTo(Len(m), LAMBDA i : IF Look(s, m[i][1], m[i][2]) = k THEN m[i][3] ELSE 0)]
Check(s, op, obs) ==
  LET T(ok, t, e) == Res(ok /\ SameDump(obs.d, t), t, [r |-> e, d |-> Dump(t), mw |-> [k \in 1..NS(t) |-> Mw(t, k)]])
  IN
  CASE op.op = "el" -> LET w == ElOut(s, op.n, op.w)
                           t == IF w = 0 THEN s ELSE PutEl(s, op.n, w - 1)
                           e == IF w = 0 THEN -1 ELSE ElIdx(t, op.n) - 1
                       IN T(obs.r = e, t, e)
    [] op.op = "sp" -> LET o == AddOut(s, op.x) IN T(obs.r = o, IF o = 1 THEN PutSp(s, op.x) ELSE s, o)
    [] op.op = "alias" -> LET a == Look(s, op.a, op.al)
                              k == IF a = 0 THEN Look(s, op.n, op.nl) ELSE 0
                              good == a = 0 /\ k > 0
                          IN T(obs.r = (IF good THEN 1 ELSE -1), IF good THEN [s EXCEPT !.alias = Append(@, [n |-> op.a, k |-> k])] ELSE s, good)
    [] op.op = "policy" -> T(TRUE, [s EXCEPT !.policy = op.p], "")
    [] op.op = "case" -> T(TRUE, [s EXCEPT !.cs = op.v], "")
    [] op.op = "modify" -> LET k == op.k + 1
                               good == /\ k <= NS(s) /\ op.x.th /\ op.x.n = s.sp[k].n /\ op.x.q = s.sp[k].q
                                       /\ {<<op.x.c[i][1], op.x.c[i][2]>> : i \in 1..Len(op.x.c)} = s.sp[k].in
                                       /\ ~op.x.poly
                           IN T(obs.r = (IF good THEN 1 ELSE -1), IF good THEN [s EXCEPT !.sp[k].h = op.x.h] ELSE s, good)
    [] op.op = "look" -> LET e == [i \in 1..Len(op.ns) |-> LET k == Look(s, op.ns[i][1], op.ns[i][2]) IN IF k = 0 THEN -1 ELSE IF k = -1 THEN -2 ELSE k - 1]
                             es == [i \in 1..Len(op.es) |-> ElIdx(s, op.es[i]) - 1]
                             iso == Isomers(s, op.iso)
                         IN T(obs.r = e /\ obs.e = es /\ {obs.iso[i] : i \in 1..Len(obs.iso)} = iso /\ Len(obs.iso) = Cardinality(iso)
                              /\ obs.by = [i \in 1..Len(e) |-> IF e[i] >= 0 THEN s.sp[e[i] + 1].n ELSE ""], s, <<e, es, iso>>)
    [] op.op = "set" -> LET bad == \E i \in 1..Len(op.m) : Look(s, op.m[i][1], op.m[i][2]) <= 0
                            \* two names of one species in one map: which value counts is not specified
                            twice == \E i, j \in 1..Len(op.m) : i < j /\ Look(s, op.m[i][1], op.m[i][2]) = Look(s, op.m[j][1], op.m[j][2])
                        IN T(obs.r = (IF bad THEN -1 ELSE 1),
                             IF bad THEN s ELSE [s EXCEPT !.comp = IF twice THEN obs.d.x ELSE SetComp(s, op.m)], bad)
    [] op.op = "hold" -> T(obs.r = op.ok, IF op.ok = 1 THEN [s EXCEPT !.locks = @ + op.w] ELSE s, op.ok)
    [] op.op = "release" -> T(obs.r = 1, [s EXCEPT !.locks = @ - op.w], 1)
    [] op.op = "unlock" -> T(obs.r = (IF s.locks = 0 THEN -1 ELSE 1), [s EXCEPT !.locks = IF @ = 0 THEN 0 ELSE @ - 1], s.locks)
Inv(s) == /\ \A j, k \in 1..NS(s) : j # k => s.sp[j].n # s.sp[k].n
          /\ \A k \in 1..NS(s) : Look(s, s.sp[k].n, s.sp[k].l) = k /\ Len(s.sp[k].c) = NE(s)
          /\ \A m \in 1..NE(s) : ElIdx(s, s.el[m].n) = m
          /\ \A k \in 1..NS(s) : s.sp[k].q # 0 => (ElIdx(s, "E") > 0 /\ s.sp[k].c[ElIdx(s, "E")] = -s.sp[k].q)
          /\ Len(s.comp) = NS(s) /\ s.locks >= 0
          /\ \A a \in {s.alias[i] : i \in 1..Len(s.alias)} : a.k \in 1..NS(s)

\* ------------------------------------------------------------ exploration of the specification
Cfg0 == [known |-> <<[n |-> "H", w |-> 1000], [n |-> "E", w |-> 1]>>, policy |-> "error"]
X0(n, l, c, q, p0) == [n |-> n, l |-> l, c |-> c, q |-> q, sz |-> 1, p0 |-> p0, th |-> TRUE, h |-> 0, poly |-> FALSE]
Lib == {X0("A", "a", << <<"H", 1>> >>, 0, 1), X0("a", "a", << <<"H", 1>>, <<"Q", 1>> >>, 0, 1), X0("B", "b", << <<"H", 2>> >>, 1, 1),
        X0("C", "c", << <<"H", 1>>, <<"E", -1>> >>, 2, 1), X0("D", "d", << <<"Q", 1>> >>, 0, 2)}
Init == st = InitSt(Cfg0)
Next == \/ \E e \in {<<"H", -1>>, <<"Q", 0>>, <<"Q", 5>>, <<"Z", -1>>} :
              ElOut(st, e[1], e[2]) > 0 /\ st' = PutEl(st, e[1], ElOut(st, e[1], e[2]) - 1)
        \/ \E x \in Lib : AddOut(st, x) = 1 /\ st' = PutSp(st, x)
        \/ \E p \in {"error", "add", "ignore"} : st' = [st EXCEPT !.policy = p]
        \/ \E a \in {"a", "B", "Z"}, k \in 1..NS(st) : Look(st, a, a) = 0 /\ st' = [st EXCEPT !.alias = Append(@, [n |-> a, k |-> k])]
        \/ st' = [st EXCEPT !.cs = ~@]
        \/ st.locks < 2 /\ st' = [st EXCEPT !.locks = @ + 1]
        \/ st.locks > 0 /\ st' = [st EXCEPT !.locks = @ - 1]
MCBound == Len(st.sp) <= 3 /\ Len(st.alias) <= 1 /\ Len(st.el) <= 3
MCInv == /\ Inv(st)
         \* a lock, an undefined element under the strict policy and a repeated name each prevent the addition
         /\ \A x \in Lib : (st.locks > 0 \/ Exact(st, x.n) > 0) => AddOut(st, x) = -1
         \* adding never changes what is reported for what was there before
         /\ \A x \in Lib : AddOut(st, x) = 1 =>
              LET t == PutSp(st, x) IN /\ \A k \in 1..NS(st) : Mw(t, k) = Mw(st, k) /\ t.sp[k].n = st.sp[k].n
                                       /\ Mw(t, NS(t)) >= 0 - 1000000
====

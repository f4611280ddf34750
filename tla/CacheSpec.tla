----------------------------- MODULE CacheSpec -----------------------------
\* Answers of phases, kinetics and transport managers are functions of state and settings.
\* A specification state holds, for each object, the class of its thermodynamic state (opaque, given by the code as the
\* exact state vector) and its settings, and every answer known so far.
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLE st
Res(ok, t, e) == [ok |-> ok, st |-> t, exp |-> e]
InitSt(cfg) == [k |-> <<0, 0>>, log |-> << <<>>, <<>> >>, memo |-> {}]

IsState(op) == op.op = "state"
Sig(op) == CASE op.op \in {"mult", "exist", "stable"} -> <<op.op, op.i, op.v>>
             [] op.op \in {"rate", "modsp", "addrx", "h298"} -> <<op.op, op.i, 0>>
             [] op.op = "deriv" -> <<op.op, op.a, op.b>>
             [] op.op = "tr" -> <<op.op, op.mi, 0>>
Check(s, op, obs) ==
  LET o == op.o + 1
      p == 3 - o
      \* the first observation of an untouched object tells the class of its initial state
      Known(i) == s.k[i] = 0 \/ s.k[i] = obs.ks[i]
  IN
  IF op.op = "q" THEN
       LET key == [k |-> obs.ks[o], log |-> s.log[o], q |-> op.q]
           old == {m \in s.memo : m.key = key}
       IN Res(/\ Known(1) /\ Known(2)                    \* a query changes no state
              /\ obs.v = obs.f                           \* the object that has no history agrees
              /\ \A m \in old : m.v = obs.v,             \* and so does every earlier answer of either object
              [s EXCEPT !.k = obs.ks, !.memo = @ \union {[key |-> key, v |-> obs.v]}],
              [state |-> s.k, answer |-> obs.f, earlier |-> {m.v : m \in old}])
  ELSE IF IsState(op) THEN
       Res(Known(p) /\ (op.how = "save" => Known(o)), [s EXCEPT !.k = obs.ks], [other |-> s.k[p]])
  ELSE Res(Known(1) /\ Known(2), [s EXCEPT !.k = obs.ks, !.log[o] = IF obs.r = 1 THEN Append(@, Sig(op)) ELSE @], [state |-> s.k])
Inv(s) == \A a, b \in s.memo : a.key = b.key => a.v = b.v

\* ------------------------------------------------- the caching protocol that makes this true
\* Each derived quantity is cached with a tag; it depends on T only ("f"), on T and P ("g"),
\* or on everything ("h"), and h is computed from f and g.  State changes and setting changes invalidate by tag.
\* Composition and settings advance a version number; a cached value is valid while its tag is current.
Val == 0..1
F(T, c) == <<"f", T, c>>
G(T, P, c) == <<"g", F(T, c), P>>
H(T, P, X, c) == <<"h", G(T, P, c), X>>
Blank == [T |-> 0, P |-> 0, X |-> 0, c |-> 0, xn |-> 0, cn |-> 0,
          f |-> [t |-> <<-1, -1>>, v |-> <<>>], g |-> [t |-> <<-1, -1, -1>>, v |-> <<>>],
          h |-> [t |-> <<-1, -1, -1, -1>>, v |-> <<>>]]
Init == st = [o |-> <<Blank>>, last |-> [i |-> 0, q |-> "none", v |-> <<>>]]
GetF(o) == IF o.f.t = <<o.T, o.cn>> THEN o ELSE [o EXCEPT !.f = [t |-> <<o.T, o.cn>>, v |-> F(o.T, o.c)]]
GetG(o) == IF o.g.t = <<o.T, o.P, o.cn>> THEN o
           ELSE LET a == GetF(o) IN [a EXCEPT !.g = [t |-> <<o.T, o.P, o.cn>>, v |-> <<"g", a.f.v, o.P>>]]
GetH(o) == IF o.h.t = <<o.T, o.P, o.xn, o.cn>> THEN o
           ELSE LET a == GetG(o) IN [a EXCEPT !.h = [t |-> <<o.T, o.P, o.xn, o.cn>>, v |-> <<"h", a.g.v, o.X>>]]
Next == \E i \in {1} :
   \/ \E v \in Val : st' = [st EXCEPT !.o[i].T = v, !.last.i = 0]
   \/ \E v \in Val : st' = [st EXCEPT !.o[i].P = v, !.last.i = 0]
   \/ \E v \in Val : st' = [st EXCEPT !.o[i].X = v, !.o[i].xn = @ + 1, !.last.i = 0]
   \/ \E v \in Val : st' = [st EXCEPT !.o[i].c = v, !.o[i].cn = @ + 1, !.last.i = 0]
   \/ LET a == GetF(st.o[i]) IN st' = [st EXCEPT !.o[i] = a, !.last = [i |-> i, q |-> "f", v |-> a.f.v]]
   \/ LET a == GetG(st.o[i]) IN st' = [st EXCEPT !.o[i] = a, !.last = [i |-> i, q |-> "g", v |-> a.g.v]]
   \/ LET a == GetH(st.o[i]) IN st' = [st EXCEPT !.o[i] = a, !.last = [i |-> i, q |-> "h", v |-> a.h.v]]
MCBound == st.o[1].xn <= 2 /\ st.o[1].cn <= 2
MCInv == st.last.i = 0 \/
         LET o == st.o[st.last.i]
         IN st.last.v = (CASE st.last.q = "f" -> F(o.T, o.c) [] st.last.q = "g" -> G(o.T, o.P, o.c) [] OTHER -> H(o.T, o.P, o.X, o.c))
====

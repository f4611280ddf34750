---- MODULE AnySpec ----
(* Trees of input data: typed nodes, in-place conversions on access, deep copies, comparison, order of the keys,
   reading from and writing to YAML, and files read through the cache.
   A node is [t, v]; numbers that are not integers are counted in quarters. A map holds items [k, f, n] (f: the
   item's place comes from an input file) and o: the order in which its keys are listed is determined
   (q: a key added from now on has no determined place). *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLE st
Res(ok, s, e) == [ok |-> ok, st |-> s, exp |-> e]
N(t, v) == [t |-> t, v |-> v]
NoneN == N("none", 0)
Excl == N("excl", 0)
MapN(items) == [t |-> "map", v |-> items, o |-> TRUE, q |-> FALSE]
EmptyMap == MapN(<<>>)
Item(k, f, n) == [k |-> k, f |-> f, n |-> n]
Idx(m, k) == {i \in 1..Len(m.v) : m.v[i].k = k}
Has(m, k) == Idx(m, k) # {}
The(m, k) == CHOOSE i \in Idx(m, k) : TRUE
Vis(m) == SelectSeq(m.v, LAMBDA it : it.n.t # "excl")
IsIdx(k) == SubSeq(k, 1, 1) = "#"
Num(k) == CASE k = "#0" -> 1 [] k = "#1" -> 2 [] OTHER -> 3


\* ---- building a tree from an operation's description (programmatic: items in order, not from a file)
RECURSIVE FromJ(_)
FromJ(n) == CASE n.t = "map" -> MapN([i \in 1..Len(n.v) |-> Item(n.v[i].k, FALSE, FromJ(n.v[i].n))])
              [] n.t \in {"va", "vm"} -> N(n.t, [i \in 1..Len(n.v) |-> FromJ(n.v[i])])
              [] OTHER -> N(n.t, n.v)

\* ---- what reading a YAML text with this content gives
Vecs == {"vi", "vd", "vs", "vb", "va", "vm", "vvi", "vvd", "vvs", "vvb"}
Base(t) == CASE t = "vi" -> "int" [] t = "vd" -> "dbl" [] t = "vs" -> "str" [] t = "vb" -> "bool"
             [] t = "vvi" -> "vi" [] t = "vvd" -> "vd" [] t = "vvs" -> "vs" [] t = "vvb" -> "vb"
Elems(n) == IF n.t \in {"va", "vm"} THEN n.v ELSE [i \in 1..Len(n.v) |-> N(Base(n.t), n.v[i])]
Kind(n) == IF n.t \in Vecs THEN "seq" ELSE n.t
Kinds(es) == {Kind(es[i]) : i \in 1..Len(es)}
Quarter(n) == IF n.t = "int" THEN 4 * n.v ELSE n.v
RECURSIVE Load(_)
LoadSeq(es) ==
  LET K == Kinds(es)
      raw(t) == N(t, [i \in 1..Len(es) |-> es[i].v])
      rows(t) == N(t, [i \in 1..Len(es) |-> [j \in 1..Len(Elems(es[i])) |-> Elems(es[i])[j].v]])
      sub == UNION {Kinds(Elems(es[i])) : i \in 1..Len(es)}
      gen == N("va", [i \in 1..Len(es) |-> Load(es[i])])
  IN CASE K = {} -> N("va", <<>>)
       [] K = {"int"} -> raw("vi")
       [] K \in {{"dbl"}, {"int", "dbl"}} -> N("vd", [i \in 1..Len(es) |-> Quarter(es[i])])
       [] K = {"str"} -> raw("vs")
       [] K = {"bool"} -> raw("vb")
       [] K = {"map"} -> N("vm", [i \in 1..Len(es) |-> Load(es[i])])
       [] K = {"seq"} ->
            CASE sub = {"int"} -> rows("vvi")
              [] sub \in {{"dbl"}, {"int", "dbl"}} ->
                   N("vvd", [i \in 1..Len(es) |-> [j \in 1..Len(Elems(es[i])) |-> Quarter(Elems(es[i])[j])]])
              [] sub = {"str"} -> rows("vvs")
              [] sub = {"bool"} -> rows("vvb")
              [] OTHER -> gen
       [] OTHER -> gen
\* items in the order in which they are listed
Listed(m) == SelectSeq(Vis(m), LAMBDA it : ~it.f) \o SelectSeq(Vis(m), LAMBDA it : it.f)
Load(n) == CASE n.t = "map" -> LET L == Listed(n) IN
                               [t |-> "map", v |-> [i \in 1..Len(L) |-> Item(L[i].k, TRUE, Load(L[i].n))],
                                o |-> n.o, q |-> FALSE]
             [] n.t \in Vecs -> LoadSeq(Elems(n))
             [] OTHER -> n
RECURSIVE HasNone(_)
HasNone(n) == CASE n.t = "none" -> TRUE
                [] n.t = "map" -> \E i \in 1..Len(n.v) : HasNone(n.v[i].n)
                [] n.t \in {"va", "vm"} -> \E i \in 1..Len(n.v) : HasNone(n.v[i])
                [] OTHER -> FALSE

\* ---- comparison: the content, and the content kept in comparable containers
RECURSIVE G(_)
G(n) == CASE n.t \in {"int", "dbl"} -> <<"num", Quarter(n)>>
          [] n.t \in Vecs -> <<"seq", [i \in 1..Len(Elems(n)) |-> G(Elems(n)[i])]>>
          [] n.t = "map" -> <<"map", {<<Vis(n)[i].k, G(Vis(n)[i].n)>> : i \in 1..Len(Vis(n))}>>
          [] OTHER -> <<n.t, n.v>>
SameContent(a, b) == G(a) = G(b)
Comparable(a, b) == \/ a.t = b.t
                    \/ {a.t, b.t} \in {{"int", "dbl"}, {"vi", "vd"}, {"va", "vd"}, {"va", "vi"}, {"va", "vs"}, {"vvd", "vvi"}}
RECURSIVE Equal(_, _)
Equal(a, b) == /\ Comparable(a, b) /\ SameContent(a, b)
               /\ (a.t = "map" => \A i \in 1..Len(Vis(a)) : Equal(Vis(a)[i].n, b.v[The(b, Vis(a)[i].k)].n))
               /\ (a.t \in {"va", "vm"} /\ b.t \in {"va", "vm"} => \A i \in 1..Len(a.v) : Equal(a.v[i], b.v[i]))

\* ---- does a listing of the tree show this tree?
RECURSIVE Shows(_, _)
Shows(n, d) ==
  /\ n.t = d.t
  /\ CASE n.t = "map" ->
            LET L == Listed(n) IN
            /\ d.ok /\ Len(d.v) = Len(L)
            /\ {L[i].k : i \in 1..Len(L)} = {d.v[i].k : i \in 1..Len(L)}
            /\ n.o => \A i \in 1..Len(L) : L[i].k = d.v[i].k
            /\ \A i \in 1..Len(L) : \A j \in 1..Len(L) : L[i].k = d.v[j].k => Shows(L[i].n, d.v[j].n)
       [] n.t \in {"va", "vm"} -> Len(d.v) = Len(n.v) /\ \A i \in 1..Len(n.v) : Shows(n.v[i], d.v[i])
       [] OTHER -> n.v = d.v

\* ---- paths
AddKey(m, k) == [m EXCEPT !.v = Append(@, Item(k, FALSE, NoneN)), !.o = @ /\ ~m.q]
RECURSIVE TouchMap(_, _), TouchVal(_, _)
\* make the value at a path exist, as m[a][b] does: [ok, n]
TouchMap(m, p) ==
  LET m1 == IF Has(m, p[1]) THEN m ELSE AddKey(m, p[1])
      i == The(m1, p[1])
      c == TouchVal(m1.v[i].n, Tail(p))
  IN IF Len(p) = 1 THEN [ok |-> TRUE, n |-> m1] ELSE [ok |-> c.ok, n |-> [m1 EXCEPT !.v[i].n = c.n]]
TouchVal(v, p) ==
  IF p = <<>> THEN [ok |-> TRUE, n |-> v]
  ELSE IF IsIdx(p[1]) THEN
    LET i == Num(p[1]) IN
    IF v.t = "va" /\ i <= Len(v.v) THEN
       LET c == TouchVal(v.v[i], Tail(p)) IN [ok |-> c.ok, n |-> [v EXCEPT !.v[i] = c.n]]
    ELSE IF v.t = "vm" /\ i <= Len(v.v) /\ Len(p) > 1 THEN
       LET c == TouchMap(v.v[i], Tail(p)) IN [ok |-> c.ok, n |-> [v EXCEPT !.v[i] = c.n]]
    ELSE [ok |-> FALSE, n |-> v]
  ELSE IF v.t \in {"none", "map"} THEN TouchMap(IF v.t = "none" THEN EmptyMap ELSE v, p)
  ELSE [ok |-> FALSE, n |-> v]
RECURSIVE GetM(_, _), GetV(_, _)
NoNode == N("?", 0)
GetM(m, p) == IF Has(m, p[1]) THEN GetV(m.v[The(m, p[1])].n, Tail(p)) ELSE NoNode
GetV(v, p) == IF v.t = "excl" THEN (IF p = <<>> THEN Excl ELSE NoNode)
              ELSE IF p = <<>> THEN v
              ELSE IF IsIdx(p[1]) THEN
                 (IF v.t = "va" /\ Num(p[1]) <= Len(v.v) THEN GetV(v.v[Num(p[1])], Tail(p))
                  ELSE IF v.t = "vm" /\ Num(p[1]) <= Len(v.v) /\ Len(p) > 1 THEN GetM(v.v[Num(p[1])], Tail(p))
                  ELSE NoNode)
              ELSE IF v.t = "map" THEN GetM(v, p) ELSE NoNode
\* replace the value at an existing path
RECURSIVE PutM(_, _, _), PutV(_, _, _)
PutM(m, p, x) == LET i == The(m, p[1]) IN [m EXCEPT !.v[i].n = PutV(m.v[i].n, Tail(p), x)]
PutV(v, p, x) == IF p = <<>> THEN x
                 ELSE IF IsIdx(p[1]) THEN
                   (IF v.t = "va" THEN [v EXCEPT !.v[Num(p[1])] = PutV(@, Tail(p), x)]
                    ELSE [v EXCEPT !.v[Num(p[1])] = PutM(@, Tail(p), x)])
                 ELSE PutM(v, p, x)
\* the map directly holding the last key of a path loses its order (the value brings a place of its own)
RECURSIVE LoseM(_, _), LoseV(_, _)
LoseM(m, p) == IF Len(p) = 1 THEN [m EXCEPT !.o = FALSE]
               ELSE LET i == The(m, p[1]) IN [m EXCEPT !.v[i].n = LoseV(m.v[i].n, Tail(p))]
LoseV(v, p) == IF IsIdx(p[1]) THEN
                 (IF v.t = "va" THEN (IF Len(p) = 1 THEN v ELSE [v EXCEPT !.v[Num(p[1])] = LoseV(@, Tail(p))])
                  ELSE [v EXCEPT !.v[Num(p[1])] = LoseM(@, Tail(p))])
               ELSE LoseM(v, p)
RECURSIVE FromFileM(_, _)
\* does the item at the end of the path carry a place of its own (from a file; elements of lists may)?
FromFileM(m, p) == IF Len(p) = 1 THEN m.v[The(m, p[1])].f
                   ELSE LET v == m.v[The(m, p[1])].n IN IF v.t = "map" THEN FromFileM(v, Tail(p)) ELSE TRUE
Find(root, p) == IF p = <<>> THEN root ELSE LET n == GetM(root, p) IN IF n.t = "excl" THEN NoNode ELSE n
PutAt(root, p, x) == IF p = <<>> THEN x ELSE PutM(root, p, x)

\* ---- typed access: [ok, n: the node afterwards (conversions stay)]
RECURSIVE As(_, _, _)
SizeOK(l, n0, n1) == IF n0 >= 0 /\ n1 < 0 THEN l = n0 ELSE IF n0 >= 0 THEN n0 <= l /\ l <= n1 ELSE TRUE
Dbl(n) == IF n.t = "int" THEN N("dbl", 4 * n.v) ELSE n
DblPrefix(v) == [i \in 1..Len(v) |-> IF \A j \in 1..i : v[j].t \in {"int", "dbl"} THEN Dbl(v[i]) ELSE v[i]]
As(n, as, txt) ==
  CASE as = "dbl" -> [ok |-> n.t \in {"int", "dbl"}, n |-> Dbl(n)]
    [] as = "str" -> IF n.t \in {"int", "dbl"} THEN [ok |-> TRUE, n |-> N("str", txt)] ELSE [ok |-> n.t = "str", n |-> n]
    [] as = "vd" -> IF n.t = "vi" THEN [ok |-> TRUE, n |-> N("vd", [i \in 1..Len(n.v) |-> 4 * n.v[i]])]
                    ELSE IF n.t = "va" THEN
                       IF Kinds(n.v) \subseteq {"int", "dbl"}
                       THEN [ok |-> TRUE, n |-> N("vd", [i \in 1..Len(n.v) |-> Quarter(n.v[i])])]
                       ELSE [ok |-> FALSE, n |-> [n EXCEPT !.v = DblPrefix(n.v)]]
                    ELSE [ok |-> n.t = "vd", n |-> n]
    [] as = "va" -> IF n.t \in {"vd", "vi", "vs"} THEN [ok |-> TRUE, n |-> N("va", Elems(n))] ELSE [ok |-> n.t = "va", n |-> n]
    [] as = "vm" -> IF n.t = "map" THEN [ok |-> TRUE, n |-> N("vm", <<n>>)]
                    ELSE IF n.t = "va" /\ n.v = <<>> THEN [ok |-> TRUE, n |-> N("vm", <<>>)]
                    ELSE [ok |-> n.t = "vm", n |-> n]
    [] as = "vvd" -> IF n.t = "vvi" THEN [ok |-> TRUE, n |-> N("vvd", [i \in 1..Len(n.v) |-> [j \in 1..Len(n.v[i]) |-> 4 * n.v[i][j]]])]
                     ELSE [ok |-> n.t = "vvd", n |-> n]
    [] OTHER -> [ok |-> n.t = as, n |-> n]
\* decimal text of a number of quarters

Frac == <<"", ".25", ".5", ".75">>
Abs(x) == IF x < 0 THEN -x ELSE x
Text(n) == IF n.t = "int" THEN {ToString(n.v)}
           ELSE LET q == Abs(n.v) s == IF n.v < 0 THEN "-" ELSE "" w == s \o ToString(q \div 4) IN
                IF q % 4 = 0 THEN {w, w \o ".0"} ELSE {w \o Frac[(q % 4) + 1]}

\* ---- updating from another map
RECURSIVE Upd(_, _, _, _)
Upd(m, items, keep, i) ==
  IF i > Len(items) THEN m
  ELSE LET it == items[i]
           m1 == IF ~Has(m, it.k) THEN [AddKey(m, it.k) EXCEPT !.v[Len(m.v) + 1] = it]
                 ELSE IF keep THEN m ELSE [m EXCEPT !.v[The(m, it.k)].n = it.n]
       IN Upd(m1, items, keep, i + 1)
Update(m, src, keep) ==
  LET items == Listed(src)
      fs == \E i \in 1..Len(items) : items[i].f
      m1 == Upd(m, items, keep, 1)
  IN IF items = <<>> THEN m
     ELSE IF m.v = <<>> THEN [m1 EXCEPT !.o = (~m.q /\ m.o /\ src.o)]
     ELSE [m1 EXCEPT !.o = @ /\ ~fs /\ src.o]

\* ---- maps found by the value of one of their entries
Match(m, k, x) == x = "" \/ \E i \in 1..Len(m.v) : m.v[i].k = k /\ m.v[i].n.t = "str" /\ m.v[i].n.v = x
Where(v, k, x) == {i \in 1..Len(v.v) : Match(v.v[i], k, x)}
First(S) == CHOOSE i \in S : \A j \in S : i <= j
NewMap(k, x) == IF x = "" THEN MapN(<<Item(k, FALSE, N("str", ""))>>) ELSE MapN(<<Item(k, FALSE, N("str", x))>>)
SetKey(m, k, n) == IF Has(m, k) THEN [m EXCEPT !.v[The(m, k)].n = n]
                   ELSE LET a == AddKey(m, k) IN [a EXCEPT !.v[Len(a.v)].n = n]

InitSt(cfg) == [r |-> <<EmptyMap, EmptyMap, EmptyMap>>,
                f |-> [i \in 1..2 |-> [ex |-> FALSE, bad |-> FALSE, n |-> EmptyMap]]]

\* E: error or not; R: the roots afterwards; V: is the value right
Out(s, obs, err, roots, v) ==
  LET ok == /\ (err => obs.err = 1) /\ (~err => obs.err = 0 /\ v)
            /\ \A i \in 1..3 : Shows(roots[i], obs.d[i])
  IN Res(ok, [s EXCEPT !.r = roots], [err |-> err, v |-> v, r |-> roots])
Set(s, i, m) == [s.r EXCEPT ![i] = m]
Check(st0, op, obs) ==
  LET s == st0
      i == IF "r" \in DOMAIN op THEN op.r + 1 ELSE 1
      root == s.r[i]
      j == IF "s" \in DOMAIN op THEN op.s + 1 ELSE 1
      src == s.r[j]
      T == TouchMap(root, op.p)
  IN
  CASE op.op = "set" -> IF T.ok THEN Out(s, obs, FALSE, Set(s, i, PutM(T.n, op.p, FromJ(op.n))), TRUE)
                        ELSE Out(s, obs, TRUE, Set(s, i, T.n), TRUE)
    [] op.op = "touch" -> Out(s, obs, ~T.ok, Set(s, i, T.n), TRUE)
    [] op.op = "get" ->
         LET n == Find(root, op.p)
             a == As(n, op.as, IF obs.err = 0 THEN obs.v ELSE "")
             sized == op.as \notin {"int", "dbl", "str", "bool", "map"}
             sz == ~sized \/ SizeOK(Len(a.n.v), op.n0, op.n1)
             val == CASE op.as \in {"int", "dbl", "bool", "vd", "vi", "vs"} -> obs.v = a.n.v
                      [] op.as = "str" -> IF n.t = "str" THEN obs.v = n.v ELSE obs.v \in Text(n)
                      [] op.as = "map" -> obs.v = Len(Vis(n))
                      [] OTHER -> obs.v = Len(a.n.v)
         IN IF n.t = "?" THEN Out(s, obs, TRUE, s.r, TRUE)
            ELSE IF ~a.ok THEN Out(s, obs, TRUE, Set(s, i, PutM(root, op.p, a.n)), TRUE)
            ELSE Out(s, obs, ~sz, Set(s, i, PutM(root, op.p, a.n)), sz => val)
    [] op.op = "def" ->
         LET n == Find(root, <<op.k>>)
             a == As(n, op.as, IF obs.err = 0 THEN obs.v ELSE "")
             d == CASE op.as = "int" -> obs.v = 77 [] op.as = "dbl" -> obs.v = 77 [] op.as = "bool" -> obs.v = TRUE [] OTHER -> obs.v = "dflt"
         IN IF n.t = "?" THEN Out(s, obs, FALSE, s.r, d)
            ELSE IF ~a.ok THEN Out(s, obs, TRUE, s.r, TRUE)
            ELSE Out(s, obs, FALSE, Set(s, i, PutM(root, <<op.k>>, a.n)),
                     IF op.as = "str" /\ n.t # "str" THEN obs.v \in Text(n) ELSE obs.v = a.n.v)
    [] op.op = "has" -> Out(s, obs, FALSE, s.r, obs.v = (Find(root, <<op.k>>).t # "?"))
    [] op.op \in {"erase", "exclude", "clear", "flow", "update"} ->
         LET T1 == IF op.p = <<>> THEN [ok |-> TRUE, n |-> root] ELSE T
             m0 == IF op.p = <<>> THEN root ELSE GetM(T1.n, op.p)
             isMap == T1.ok /\ m0.t \in {"map", "none"}
             m == IF m0.t = "none" THEN EmptyMap ELSE m0
             from == Find(src, op.q)
             m2 == CASE op.op = "erase" -> [m EXCEPT !.v = SelectSeq(@, LAMBDA it : it.k # op.k)]
                     [] op.op = "exclude" -> IF Has(m, op.k) THEN [m EXCEPT !.v[The(m, op.k)].n = Excl]
                                             ELSE [m EXCEPT !.v = Append(@, Item(op.k, FALSE, Excl)), !.o = FALSE]
                     [] op.op = "clear" -> [m EXCEPT !.v = <<>>, !.o = ~m.q]
                     [] op.op = "flow" -> m
                     [] op.op = "update" -> Update(m, from, op.keep)
         IN IF op.op = "update" /\ from.t # "map" THEN Out(s, obs, TRUE, s.r, TRUE)
            ELSE IF ~isMap THEN Out(s, obs, TRUE, Set(s, i, T1.n), TRUE)
            ELSE Out(s, obs, FALSE, Set(s, i, PutAt(T1.n, op.p, m2)), TRUE)
    [] op.op = "copyroot" -> Out(s, obs, FALSE, Set(s, i, src), TRUE)
    [] op.op = "assignroot" -> Out(s, obs, FALSE, Set(s, i, IF i = j THEN src ELSE [src EXCEPT !.q = TRUE]), TRUE)
    [] op.op = "graft" ->
         LET n == Find(src, op.q) IN
         IF n.t = "?" THEN Out(s, obs, TRUE, s.r, TRUE)
         ELSE IF ~T.ok THEN Out(s, obs, TRUE, Set(s, i, T.n), TRUE)
         ELSE LET R == PutM(T.n, op.p, n)
              IN Out(s, obs, FALSE, Set(s, i, IF FromFileM(src, op.q) THEN LoseM(R, op.p) ELSE R), TRUE)
    [] op.op = "graftmap" ->
         LET n == Find(src, op.q) IN
         IF n.t # "map" THEN Out(s, obs, TRUE, s.r, TRUE)
         ELSE IF ~T.ok THEN Out(s, obs, TRUE, Set(s, i, T.n), TRUE)
         ELSE Out(s, obs, FALSE, Set(s, i, PutM(T.n, op.p, n)), TRUE)
    [] op.op = "where" ->
         LET v == GetM(T.n, op.p)
             hit(m) == SetKey(m, "hit", N("int", op.w))
             W == IF op.x = "" THEN (IF v.t = "vm" /\ v.v # <<>> THEN {1} ELSE {}) ELSE Where(v, op.k, op.x)
             put(x) == Set(s, i, PutM(T.n, op.p, x))
         IN IF ~T.ok THEN Out(s, obs, TRUE, Set(s, i, T.n), TRUE)
            ELSE IF v.t = "vm" THEN
               IF W # {} THEN Out(s, obs, FALSE, put([v EXCEPT !.v[First(W)] = hit(@)]), Shows(v.v[First(W)], obs.v))
               ELSE IF op.x = "" THEN Res(obs.err # 0 /\ \A a \in 1..3 : Shows(Set(s, i, T.n)[a], obs.d[a]), [s EXCEPT !.r = Set(s, i, T.n)], [err |-> TRUE])
               ELSE IF op.create THEN Out(s, obs, FALSE, put([v EXCEPT !.v = Append(@, hit(NewMap(op.k, op.x)))]), TRUE)
               ELSE Out(s, obs, TRUE, Set(s, i, T.n), TRUE)
            ELSE IF v.t = "map" THEN
               IF Match(v, op.k, op.x) THEN Out(s, obs, FALSE, put(hit(v)), Shows(v, obs.v))
               ELSE IF op.create THEN Out(s, obs, FALSE, put(N("vm", <<v, hit(NewMap(op.k, op.x))>>)), TRUE)
               ELSE Out(s, obs, TRUE, Set(s, i, T.n), TRUE)
            ELSE IF v.t = "none" /\ op.create THEN Out(s, obs, FALSE, put(hit(NewMap(op.k, op.x))), TRUE)
            ELSE Out(s, obs, TRUE, Set(s, i, T.n), TRUE)
    [] op.op \in {"cwhere", "haswhere"} ->
         LET v == Find(root, op.p)
             W == IF v.t = "vm" THEN Where(v, op.k, op.x) ELSE {}
             yes == (v.t = "vm" /\ W # {}) \/ (v.t = "map" /\ Match(v, op.k, op.x))
         IN IF v.t = "?" THEN Out(s, obs, TRUE, s.r, TRUE)
            ELSE IF op.op = "haswhere" THEN Out(s, obs, FALSE, s.r, obs.v = (yes \/ (v.t = "vm" /\ op.x = "")))
            ELSE IF yes THEN Out(s, obs, FALSE, s.r, Shows(IF v.t = "map" THEN v ELSE v.v[First(W)], obs.v))
            ELSE Res(obs.err # 0 /\ \A a \in 1..3 : Shows(s.r[a], obs.d[a]), s, [err |-> TRUE])
    [] op.op = "shape" ->
         LET v == Find(root, op.p)
             vs == IF v.t \in {"vd", "vi", "vs", "vb"} THEN Len(v.v) ELSE -1
             mat == v.t \in {"vvd", "vvi", "vvs", "vvb"}
             rows == IF mat THEN Len(v.v) ELSE -1
             cols == IF ~mat THEN -1 ELSE IF v.v = <<>> THEN 0
                     ELSE IF \A a \in 1..Len(v.v) : Len(v.v[a]) = Len(v.v[1]) THEN Len(v.v[1]) ELSE -1
         IN IF v.t = "?" THEN Out(s, obs, TRUE, s.r, TRUE)
            ELSE Out(s, obs, FALSE, s.r, /\ obs.v[1] = vs /\ obs.v[2] = rows /\ obs.v[3] = cols
                                         /\ obs.v[4] = (v.t \in {"int", "dbl", "str", "bool"}) /\ obs.v[5] = (v.t = "none")
                                         /\ obs.v[6] = (v.t = "map" /\ Find(v, <<"a">>).t # "?"))
    [] op.op = "cmp" ->
         LET a == Find(root, op.p) b == Find(src, op.q)
         IN IF a.t = "?" \/ b.t = "?" THEN Out(s, obs, TRUE, s.r, TRUE)
            ELSE Out(s, obs, FALSE, s.r, /\ obs.v[2] = ~obs.v[1] /\ obs.v[3] = obs.v[1]
                                         /\ (Equal(a, b) => obs.v[1]) /\ (obs.v[1] => SameContent(a, b)))
    [] op.op = "cmps" ->
         LET a == Find(root, op.p)
             e == CASE op.n.t \in {"int", "dbl"} -> a.t \in {"int", "dbl"} /\ Quarter(a) = Quarter(op.n)
                    [] OTHER -> a.t = "str" /\ a.v = op.n.v
         IN IF a.t = "?" THEN Out(s, obs, TRUE, s.r, TRUE)
            ELSE Out(s, obs, FALSE, s.r, obs.v[1] = e /\ obs.v[2] = ~e /\ obs.v[3] = e)
    [] op.op = "yaml" ->
         IF HasNone(src) THEN Out(s, obs, TRUE, s.r, TRUE)
         ELSE LET b == Load(src) IN Out(s, obs, FALSE, Set(s, i, b), Equal(src, b) => obs.v)
    [] op.op = "parse" -> Out(s, obs, FALSE, Set(s, i, Load(FromJ(op.n))), TRUE)
    [] op.op = "list" -> Out(s, obs, FALSE, Set(s, i, MapN(<<Item("items", FALSE, Load(FromJ(op.n)))>>)), TRUE)
    [] op.op = "bad" -> Out(s, obs, TRUE, s.r, TRUE)
    [] op.op = "write" -> LET s1 == [s EXCEPT !.f[op.f + 1] = [ex |-> TRUE, bad |-> op.bad, n |-> FromJ(op.n)]]
                          IN Out(s1, obs, FALSE, s.r, TRUE)
    [] op.op = "rmfile" -> Out([s EXCEPT !.f[op.f + 1].ex = FALSE], obs, FALSE, s.r, TRUE)
    [] op.op = "uncache" -> Out(s, obs, ~s.f[op.f + 1].ex, s.r, TRUE)
    [] op.op = "read" -> LET f == s.f[op.f + 1] IN
                         IF ~f.ex \/ f.bad THEN Out(s, obs, TRUE, s.r, TRUE)
                         ELSE Out(s, obs, FALSE, Set(s, i, Load(f.n)), TRUE)
RECURSIVE WF(_)
WF(n) == CASE n.t = "map" -> /\ \A i, j \in 1..Len(n.v) : n.v[i].k = n.v[j].k => i = j
                             /\ \A i \in 1..Len(n.v) : WF(n.v[i].n)
           [] n.t \in {"va", "vm"} -> \A i \in 1..Len(n.v) : WF(n.v[i]) /\ (n.t = "vm" => n.v[i].t = "map")
           [] OTHER -> TRUE
Inv(s) == \A i \in 1..3 : WF(s.r[i])

\* ---------------------------------------------------------------- exploration of the specification
MCScalars == {N("int", 1), N("dbl", 4), N("dbl", 6), N("str", "a"), N("bool", TRUE)}
MCVals == MCScalars \cup {N("vi", <<1>>), N("vd", <<4>>), N("va", <<>>), N("vm", <<>>), N("vvi", <<<<1>>, <<>>>>), N("vvd", <<<<4>>, <<>>>>),
                          N("va", <<N("int", 1), N("dbl", 6)>>), N("va", <<N("vi", <<1>>), N("vd", <<6>>)>>), N("vs", <<"a">>)}
MCKeys == {"a", "b"}
MCPaths == {<<k>> : k \in MCKeys} \cup {<<k, l>> : k \in MCKeys, l \in MCKeys} \cup {<<"a", "#0", "b">>}
Init == st = InitSt("")
Next == \/ \E p \in MCPaths, v \in MCVals : LET T == TouchMap(st.r[1], p) IN
             st' = [st EXCEPT !.r[1] = IF T.ok THEN PutM(T.n, p, v) ELSE T.n]
        \/ \E p \in MCPaths, as \in {"dbl", "vd", "va", "vm", "vvd"} : LET n == Find(st.r[1], p) IN
             n.t # "?" /\ st' = [st EXCEPT !.r[1] = PutM(@, p, As(n, as, "").n)]
        \/ st' = [st EXCEPT !.r[2] = Load(st.r[1])]
        \/ \E keep \in BOOLEAN : st' = [st EXCEPT !.r[2] = Update(@, st.r[1], keep)]
        \/ \E p \in MCPaths : LET T == TouchMap(st.r[1], p) IN T.ok /\ st' = [st EXCEPT !.r[1] = PutM(T.n, p, st.r[2])]
RECURSIVE Depth(_)
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Depth(n) == CASE n.t = "map" -> 1 + Max({0} \cup {Depth(n.v[i].n) : i \in 1..Len(n.v)})
              [] n.t \in {"va", "vm"} -> 1 + Max({0} \cup {Depth(n.v[i]) : i \in 1..Len(n.v)})
              [] OTHER -> 0
MCBound == TLCGet("level") <= 4 /\ \A i \in 1..2 : Depth(st.r[i]) <= 4
\* reading what was written gives the same content, is stable, and access never changes the content
Laws == LET n == st.r[1] IN
        /\ SameContent(n, Load(n)) /\ Load(Load(n)) = Load(n)
        /\ Equal(n, n) /\ (Equal(n, st.r[2]) = Equal(st.r[2], n))
        /\ \A p \in MCPaths : LET x == Find(n, p) IN
             x.t \notin {"?", "map"} => \A as \in {"dbl", "vd", "va", "vvd"} :
                  SameContent(x, As(x, as, "").n) /\ Equal(x, As(x, as, "").n)
MCInv == Inv(st) /\ Laws
====

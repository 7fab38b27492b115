-------------------------------- MODULE Wsgi -------------------------------
(* C03: one request through the application: before-hooks, routing, handler, after-hooks,
   the casting of the handler's outcome, start_response, the body, close().

   A program P describes what user code does:
     meth   the request method            target  "hit" | "404" | "405"
     before/after  sequences of acts      h       the handler's act
     eh     error handlers: sequence of <<code, act>>
     st     status set by the handler first (0: none, -1: a malformed one)
     ucl    the handler sets a Content-Length of its own first
     badcs  the handler sets a charset that cannot encode "u" texts first
   act:   [k |-> "ok"] | "exc" | "ret" v | "raise" v (an HTTP response) | "self" (an error
          handler returning the error it was given)
   value: none | str t | bytes | obj | file d | iter id cl items | resp err st cl body
   item:  [c |-> "es" "eb" "no" (empty ones) "s" "u" "b" (output) "x" (unsupported)
          "r" (raises) "Y" v (an HTTP response yielded or raised)]                          *)
EXTENDS VF

None == [k |-> "none"]
Str(t) == [k |-> "str", t |-> t]
Resp(err, st, body) == [k |-> "resp", err |-> err, st |-> st, cl |-> FALSE, body |-> body]
Err(st) == Resp(TRUE, st, None)
Bytes_(t) == CASE t = "s" -> 2 [] t = "u" -> 5 [] t = "b" -> 3 [] t = "page" -> 0 [] OTHER -> 0
Empty(c) == c \in {"es", "eb", "no"}
\* the name of a method means the same in any case
IsHead(m) == m \in {"HEAD", "head", "Head", "hEAD"}
NoBody(m, st) == IsHead(m) \/ st \in 100..199 \/ st \in {204, 304}

VARIABLES P, s
(* ph, out: value being cast; st; ucl; ev: user code invoked so far; prod: iterables that produced output;
   sr: start_response calls; body: tokens; size: Content-Length set by the framework (-1: none)            *)
S0 == [ph |-> "before", i |-> 1, out |-> None, st |-> 200, ucl |-> FALSE, badcs |-> FALSE, ev |-> << >>, prod |-> << >>, closed |-> << >>,
       sr |-> 0, body |-> << >>, size |-> -1, crit |-> FALSE, mid |-> FALSE, fuzzy |-> FALSE, loops |-> 0]

Fail(x) == [x EXCEPT !.out = Err(500)]
Critical(x) == [x EXCEPT !.ph = "start", !.st = 500, !.out = None, !.body = <<"page">>, !.size = -1, !.crit = TRUE]
(* the outcome of an act outside the casting *)
Act(x, a) == CASE a.k = "exc" -> [x EXCEPT !.out = Err(500)]
               [] a.k \in {"ret", "raise"} -> [x EXCEPT !.out = a.v]
               [] OTHER -> x
Log(x, e) == [x EXCEPT !.ev = Append(@, e)]

Before(p, x) ==
  IF x.i > Len(p.before) THEN [x EXCEPT !.ph = "handler"]
  ELSE LET a == p.before[x.i]  y == Log(x, <<"before", x.i>>) IN
       IF a.k = "ok" THEN [y EXCEPT !.i = @ + 1]
       ELSE [Act(y, a) EXCEPT !.ph = "after", !.i = Len(p.after)]
Handler(p, x) ==
  LET y == [x EXCEPT !.ph = "after", !.i = Len(p.after)] IN
  CASE p.target = "404" -> [y EXCEPT !.out = Err(404)]
    [] p.target = "405" -> [y EXCEPT !.out = Err(405)]
    [] OTHER -> LET z == Log(y, <<"handler", 0>>) IN
                IF p.st = -1 THEN Fail(z)
                ELSE Act([z EXCEPT !.st = IF p.st = 0 THEN 200 ELSE p.st, !.ucl = p.ucl, !.badcs = p.badcs], p.h)
(* after-hooks in reverse order; when one fails, the later ones are not specified *)
After(p, x) ==
  IF x.i < 1 THEN [x EXCEPT !.ph = "cast"]
  ELSE LET a == p.after[x.i]  y == Log(x, <<"after", x.i>>) IN
       IF a.k = "ok" THEN [y EXCEPT !.i = @ - 1]
       ELSE [Act(y, a) EXCEPT !.ph = "cast"]

EhOf(p, st) == LET c == SelectSeq(p.eh, LAMBDA e : e[1] = st) IN IF c = << >> THEN [k |-> "page"] ELSE c[Len(c)][2]
Applied(x, v) == [x EXCEPT !.st = v.st, !.ucl = v.cl, !.badcs = FALSE]
Send(x, toks, n) == [x EXCEPT !.ph = "start", !.body = toks, !.size = IF x.ucl THEN -1 ELSE n]
RECURSIVE Skip(_, _)
Skip(items, j) == IF j <= Len(items) /\ Empty(items[j].c) THEN Skip(items, j + 1) ELSE j
Toks(items) == [j \in 1..Len(items) |-> items[j].c]
UpToR(it) == LET R == {j \in 1..Len(it) : it[j].c = "r"} IN IF R = {} THEN it ELSE Take(it, (CHOOSE j \in R : \A k \in R : j <= k) - 1)
Encodes(x, t) == ~(x.badcs /\ t = "u")
Cast(p, x) ==
  LET v == x.out IN
  IF x.loops > 30 THEN Critical(x) ELSE
  CASE v.k = "none" -> Send(x, << >>, 0)
    [] v.k = "page" -> [x EXCEPT !.ph = "start", !.body = <<"page">>, !.size = IF x.ucl THEN -1 ELSE -2]
    [] v.k = "str" -> IF v.t = "es" THEN Send(x, << >>, 0) ELSE IF Encodes(x, v.t) THEN Send(x, <<v.t>>, Bytes_(v.t)) ELSE Critical(x)
    [] v.k = "bytes" -> IF v.t = "eb" THEN Send(x, << >>, 0) ELSE Send(x, <<v.t>>, Bytes_(v.t))
    [] v.k = "obj" -> Fail(x)
    [] v.k = "file" -> [Send(x, v.d, -1) EXCEPT !.prod = IF v.d = << >> THEN @ ELSE Append(@, v.id)]
    [] v.k = "resp" ->
         LET ap == [Applied(x, v) EXCEPT !.loops = @ + 1] IN
         IF ~v.err THEN [ap EXCEPT !.out = v.body]
         ELSE LET a == EhOf(p, v.st)  z == IF a.k = "page" THEN ap ELSE Log(ap, <<"error", v.st>>) IN
              (CASE a.k = "page" -> [z EXCEPT !.out = [k |-> "page"]]
                [] a.k = "ret" -> [z EXCEPT !.out = a.v]
                [] a.k = "self" -> [z EXCEPT !.st = 500, !.out = [k |-> "page"]]
                [] a.k = "exc" -> Critical(z)
                [] a.k = "raise" -> [Critical(z) EXCEPT !.fuzzy = TRUE])
    [] v.k = "iter" ->
         LET j == Skip(v.items, 1)
             f == v.items[j]
             rest == Drop(v.items, j - 1)
         IN IF j > Len(v.items) THEN [x EXCEPT !.out = None]
            ELSE CASE f.c \in {"r", "x"} -> Fail(x)
                   [] f.c = "Y" -> [x EXCEPT !.out = f.v]
                   [] OTHER -> LET w == [x EXCEPT !.prod = Append(@, v.id)] IN
                               IF Encodes(x, f.c)
                               THEN [Send(w, Toks(UpToR(rest)), -1) EXCEPT
                                       !.mid = Len(UpToR(rest)) < Len(rest) \/ \E t \in 1..Len(rest) : ~Encodes(x, rest[t].c)]
                               ELSE [Fail(w) EXCEPT !.closed = Append(@, v.id)]
Start(p, x) == [x EXCEPT !.ph = "body", !.sr = @ + 1, !.body = IF NoBody(p.meth, x.st) THEN << >> ELSE @]
(* the server has iterated the body and calls close(); what produced output is closed once *)
Serve(p, x) == [x EXCEPT !.ph = "done", !.closed = @ \o SelectSeq(x.prod, LAMBDA d : ~\E k \in 1..Len(x.closed) : x.closed[k] = d)]

Step(p, x) == CASE x.ph = "before" -> Before(p, x) [] x.ph = "handler" -> Handler(p, x) [] x.ph = "after" -> After(p, x)
                [] x.ph = "cast" -> Cast(p, x) [] x.ph = "start" -> Start(p, x) [] x.ph = "body" -> Serve(p, x)
RECURSIVE Run(_, _)
Run(p, x) == IF x.ph = "done" THEN x ELSE Run(p, Step(p, x))

(* ------------------------------ exploration ----------------------------- *)
Ok == [k |-> "ok"]  Exc == [k |-> "exc"]  Ret(v) == [k |-> "ret", v |-> v]  Raise(v) == [k |-> "raise", v |-> v]
I(c) == [c |-> c]
Yi(v) == [c |-> "Y", v |-> v]
Iter(id, cl, items) == [k |-> "iter", id |-> id, cl |-> cl, items |-> items]
File(id, cl, d) == [k |-> "file", id |-> id, cl |-> cl, d |-> d]
Leaf == {None, Str("s"), Str("u"), Str("es"), [k |-> "bytes", t |-> "b"], [k |-> "bytes", t |-> "eb"], [k |-> "obj"],
         File(1, TRUE, <<"b", "b">>), File(1, FALSE, <<"b">>), File(1, TRUE, << >>)}
Items == {I("es"), I("eb"), I("no"), I("s"), I("u"), I("b"), I("x"), I("r"), Yi(Resp(FALSE, 202, Str("s"))), Yi(Err(404)),
          Yi(Resp(FALSE, 200, Iter(2, TRUE, <<I("es"), I("u")>>)))}
Kind(c) == IF c \in {"s", "u"} THEN 1 ELSE IF c = "b" THEN 2 ELSE 0
(* a stream of output items keeps to one type, and to types the framework supports *)
Uniform(q) == LET j == Skip(q, 1) IN j <= Len(q) /\ Kind(q[j].c) # 0 =>
                \A k \in (j + 1)..Len(q) : q[k].c = "r" \/ Kind(q[k].c) = Kind(q[j].c) \/ q[k].c = (IF Kind(q[j].c) = 1 THEN "es" ELSE "eb")
ILen == EnvInt("ILEN")
Iters == {Iter(1, cl, q) : cl \in BOOLEAN, q \in {q \in UNION {[1..n -> Items] : n \in 0..ILen} : Uniform(q)}}
Prog(meth, target, before, after, h, eh, st, ucl, badcs) ==
  [meth |-> meth, target |-> target, before |-> before, after |-> after, h |-> h, eh |-> eh, st |-> st, ucl |-> ucl, badcs |-> badcs]
P1 == {Prog(m, "hit", << >>, << >>, Ret(v), << >>, st, FALSE, cs) : m \in {"GET", "HEAD", "head"}, v \in Iters, st \in {0, 304}, cs \in {FALSE}}
      \cup {Prog("GET", "hit", << >>, << >>, Ret(v), << >>, 0, u, TRUE) : v \in Iters \cup Leaf, u \in BOOLEAN}
Stat == {100, 101, 103, 199, 200, 204, 205, 206, 304, 404, 418, 500, 599, 999}
Ehs == {<< >>, << <<404, Ret(Str("u"))>> >>, << <<404, Ret(Iter(7, TRUE, <<I("es"), I("b")>>))>> >>, << <<404, Exc>> >>, << <<404, [k |-> "self"]>> >>,
        << <<404, Ret(Resp(FALSE, 204, Str("s")))>>, <<500, Ret(Str("s"))>> >>, << <<500, Ret(None)>>, <<405, Ret(Str("u"))>> >>,
        << <<404, Ret(Err(500))>>, <<500, Exc>> >>, << <<404, Raise(Resp(FALSE, 200, Str("s")))>> >>, << <<405, [k |-> "self"]>>, <<500, Ret(File(8, TRUE, <<"b">>))>> >>}
Sub_ == {None, Str("u"), Iter(1, TRUE, <<I("es"), I("s"), I("s")>>), File(1, TRUE, <<"b">>), Resp(FALSE, 304, Str("s")), Err(404), [k |-> "obj"],
         Iter(1, TRUE, <<I("r")>>)}
P2 == {Prog(m, "hit", << >>, << >>, a, << >>, 0, ucl, FALSE) : m \in {"GET", "HEAD", "POST"}, ucl \in BOOLEAN,
          a \in {Ret(Resp(e, st, v)) : e \in {FALSE}, st \in Stat, v \in Sub_} \cup {Raise(Resp(e, st, v)) : e \in {FALSE}, st \in {200, 204, 404}, v \in Sub_}}
      \cup {Prog(m, t, << >>, << >>, a, eh, 0, ucl, FALSE) : m \in {"GET", "Head"}, t \in {"hit", "404", "405"}, eh \in Ehs, ucl \in BOOLEAN,
          a \in {Exc, Ret(Err(404)), Raise(Err(404)), Raise(Err(500)), Ret([k |-> "obj"]), Ret(Iter(1, TRUE, <<I("es"), Yi(Err(404))>>)), Ret(Str("s"))}}
      \cup {Prog(m, "hit", << >>, << >>, Ret(v), << >>, st, ucl, FALSE) : m \in {"GET", "HEAD", "OPTIONS"}, v \in Leaf, st \in {0, -1} \cup Stat, ucl \in BOOLEAN}
Acts == {Ok, Exc, Raise(Resp(FALSE, 202, Str("s"))), Raise(Err(404))}
Seqs(X, n) == UNION {[1..k -> X] : k \in 0..n}
P3 == {Prog(m, t, b, a, h, << >>, 0, FALSE, FALSE) : m \in {"GET", "HEAD"}, t \in {"hit", "404", "405"}, b \in Seqs(Acts, 2), a \in Seqs(Acts, 2),
          h \in {Ret(Str("s")), Exc, Raise(Resp(FALSE, 204, None))}}
      \cup {Prog("GET", t, b, a, Ret(Iter(1, TRUE, <<I("s")>>)), << >>, 0, FALSE, FALSE) : t \in {"hit", "404"}, b \in Seqs({Ok, Exc}, 3), a \in Seqs({Ok, Exc}, 3)}
Part == EnvInt("PART")
Init == P \in (CASE Part = 1 -> P1 [] Part = 2 -> P2 [] Part = 3 -> P3) /\ s = S0
Next == s.ph # "done" /\ s' = Step(P, s) /\ UNCHANGED P
Done == s.ph = "done"
OnceStarted == s.sr <= 1 /\ (Done => s.sr = 1)
Suppressed == Done /\ NoBody(P.meth, s.st) => s.body = << >>
Lengths == Done /\ s.size >= 0 /\ ~NoBody(P.meth, s.st) =>
             LET RECURSIVE Sum(_)
                 Sum(b) == IF b = << >> THEN 0 ELSE Bytes_(b[1]) + Sum(Tail(b))
             IN s.size = Sum(s.body)
ClosedOnce == Done => \A a \in 1..Len(s.prod) : Cardinality({k \in 1..Len(s.closed) : s.closed[k] = s.prod[a]}) = 1
(* before-hooks in order up to the first that fails; every after-hook up to the first that fails, reversed *)
Hooks == LET b == SelectSeq(s.ev, LAMBDA e : e[1] = "before")  a == SelectSeq(s.ev, LAMBDA e : e[1] = "after") IN
         /\ \A k \in 1..Len(b) : b[k][2] = k
         /\ \A k \in 1..Len(a) : a[k][2] = Len(P.after) + 1 - k
         /\ Done => (Len(b) = Len(P.before) \/ P.before[Len(b)].k # "ok")
         /\ Done => (Len(a) = Len(P.after) \/ P.after[a[Len(a)][2]].k # "ok")
         /\ \A j, k \in 1..Len(s.ev) : s.ev[j][1] = "before" /\ s.ev[k][1] \in {"handler", "after"} => j < k
         /\ \A j, k \in 1..Len(s.ev) : s.ev[j][1] = "handler" /\ s.ev[k][1] = "after" => j < k
         /\ \A j \in 1..Len(s.ev) : s.ev[j][1] = "handler" => (\A k \in 1..Len(P.before) : P.before[k].k = "ok") /\ P.target = "hit"
Res(x) == [st |-> x.st, body |-> x.body, size |-> x.size, ucl |-> x.ucl, ev |-> x.ev, prod |-> x.prod, crit |-> x.crit, mid |-> x.mid, fuzzy |-> x.fuzzy]
Emit == Done => Out([p |-> P, r |-> Res(s)])

(* -------------------------------- judge --------------------------------- *)
JInit == P = 1 /\ s = S0
JNext == P < Len(In) /\ P' = P + 1 /\ UNCHANGED s
JEmit == Out([i |-> P, r |-> Res(Run(In[P], S0))])
=============================================================================

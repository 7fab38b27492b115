------------------------------ MODULE Router ------------------------------
(* C01 C02 C11 C19: the router.

   A rule is a sequence of items: <<0, c>> a literal character, <<1, name, filter>>
   a wildcard (name 0: anonymous).  Filters: 0 plain (everything up to '/'), -1 path,
   -2 int, -3 float, f >= 1 the f-th regular expression of the table.  <<2, k>> behind a
   wildcard with an alternation filter: its k-th group was the one that matched.

   Match      one rule against one path, left to right, no other rule involved
   Flat       the plain rule-by-rule choice among the matching rules
   Tree       the backtracking walk over the rules' common prefixes (what a radix tree
              does); refinement: Tree = Flat for every rule set and path
   Apply      the effect of an edit (add / overwrite / remove by rule, name, prefix /
              hooks) on the abstract router: routes, names, hooks
   Build      the URL for wildcard texts; Match leads back                          *)
EXTENDS VF

SL == 47
NoPat == << <<3, 0, << >> >> >>
Lower(c) == c \in 97..122
Up(s) == [k \in 1..Len(s) |-> IF Lower(s[k]) THEN s[k] - 32 ELSE s[k]]

(* ------------------------- regular expressions -------------------------- *)
(* A regex is a sequence of atoms: [t: "set", neg, cs, lo, hi] (hi = 0: unbounded, greedy),
   [t: "opt", sub], [t: "ahead", cs] (lookahead of a literal), [t: "eol"].            *)
IsDigit(c) == c \in 48..57 \cup 1632..1641 \cup 1776..1785 \cup 2406..2415 \cup 2534..2543 \cup 65296..65305
InSet(a, c) == LET m == \E k \in 1..Len(a.cs) : a.cs[k] = c \/ (a.cs[k] = -1 /\ IsDigit(c))
               IN IF a.neg THEN ~m ELSE m
RECURSIVE CountRun(_, _, _, _)
CountRun(a, s, p, n) == IF p <= Len(s) /\ (a.hi = 0 \/ n < a.hi) /\ InSet(a, s[p]) THEN CountRun(a, s, p + 1, n + 1) ELSE n
RECURSIVE Re(_, _, _)
RECURSIVE ReTry(_, _, _, _)
(* the cursor behind the (first, greedy) match at p, or 0 *)
Re(r, s, p) ==
  IF r = << >> THEN p ELSE
  LET a == r[1] IN
  CASE a.t = "set" -> ReTry(r, s, p, CountRun(a, s, p, 0))
    [] a.t = "opt" -> LET x == Re(a.sub \o Tail(r), s, p) IN IF x # 0 THEN x ELSE Re(Tail(r), s, p)
    [] a.t = "ahead" -> IF StartsAt(s, p, a.cs) THEN Re(Tail(r), s, p) ELSE 0
    [] a.t = "eol" -> IF p = Len(s) + 1 \/ (p = Len(s) /\ s[p] = 10) THEN Re(Tail(r), s, p) ELSE 0
ReTry(r, s, p, n) ==
  IF n < r[1].lo THEN 0
  ELSE LET x == Re(Tail(r), s, p + n) IN IF x # 0 THEN x ELSE IF n = 0 THEN 0 ELSE ReTry(r, s, p, n - 1)

(* An alternation filter: the first alternative that matches; it may be a group with text around
   it, and the value is the text of the group.  e: the cursor, v: the value's span, g: the group *)
RECURSIVE Rex(_, _, _, _, _)
Rex(alts, k, n, s, p) ==
  IF k > Len(alts) THEN [e |-> 0, v |-> <<p, p>>, g |-> 0] ELSE
  LET a == alts[k]
      m == n + (IF a.cap THEN 1 ELSE 0)
      q == IF StartsAt(s, p, a.pre)
           THEN Re(a.grp \o [j \in 1..Len(a.post) |-> [t |-> "set", neg |-> FALSE, cs |-> <<a.post[j]>>, lo |-> 1, hi |-> 1]], s, p + Len(a.pre)) ELSE 0
  IN IF q = 0 THEN Rex(alts, k + 1, m, s, p)
     ELSE IF a.cap THEN [e |-> q, v |-> <<p + Len(a.pre), q - Len(a.post)>>, g |-> m] ELSE [e |-> q, v |-> <<p, q>>, g |-> 0]

Set_(neg, cs, lo, hi) == [t |-> "set", neg |-> neg, cs |-> cs, lo |-> lo, hi |-> hi]
ReInt == <<Set_(FALSE, <<45>>, 0, 1), Set_(FALSE, <<-1>>, 1, 0)>>
ReFloat == ReInt \o << [t |-> "opt", sub |-> <<Set_(FALSE, <<46>>, 1, 1), Set_(FALSE, <<-1>>, 1, 0)>>] >>
RePath(tail) == <<Set_(TRUE, <<10>>, 1, 0)>> \o (IF tail = << >> THEN <<[t |-> "eol"]>> ELSE <<[t |-> "ahead", cs |-> tail]>>)

(* ------------------------------- patterns ------------------------------- *)
IsWild(x) == x[1] = 1
IsSel(x) == x[1] = 2
Rank(x) == CASE IsSel(x) -> 0 [] IsWild(x) -> 2 [] OTHER -> 1
RECURSIVE LitRun(_, _)
LitRun(it, i) == IF i > Len(it) \/ IsWild(it[i]) THEN << >> ELSE <<it[i][2]>> \o LitRun(it, i + 1)
(* names forgotten; a path wildcard's filter is the literal text that follows it *)
Pat(it) == [k \in 1..Len(it) |-> IF IsWild(it[k]) THEN <<1, it[k][3], IF it[k][3] = -1 THEN LitRun(it, k + 1) ELSE << >> >>
                                                  ELSE <<it[k][1], it[k][2], << >> >>]
NamesOf(it) == LET w == SelectSeq(it, LAMBDA x : IsWild(x)) IN [k \in 1..Len(w) |-> w[k][2]]

RECURSIVE RunTo(_, _)
RunTo(s, p) == IF p <= Len(s) /\ s[p] # SL THEN RunTo(s, p + 1) ELSE p
Accept(w, s, p, fs) ==
  CASE w[2] = 0 -> RunTo(s, p)
    [] w[2] = -1 -> Re(RePath(w[3]), s, p)
    [] w[2] = -2 -> Re(ReInt, s, p)
    [] w[2] = -3 -> Re(ReFloat, s, p)
    [] w[2] > 0 -> Re(fs[w[2]], s, p)
IsRex(w, fs) == w[2] > 0 /\ Len(fs[w[2]]) = 1 /\ fs[w[2]][1].t = "rex"
Take_(w, s, p, fs) == IF IsRex(w, fs) THEN Rex(fs[w[2]][1].alts, 1, 0, s, p)
                      ELSE LET q == Accept(w, s, p, fs) IN [e |-> q, v |-> <<p, q>>, g |-> 0]

(* cursors behind each item (e) and the spans of the wildcards' values (v); ok: the whole path matches *)
NoMatch == [ok |-> FALSE, e |-> << >>, v |-> << >>]
RECURSIVE Ends(_, _, _, _, _, _, _, _)
Ends(pt, i, s, p, g, fs, acc, vs) ==
  IF i > Len(pt) THEN (IF p = Len(s) + 1 THEN [ok |-> TRUE, e |-> acc, v |-> vs] ELSE NoMatch)
  ELSE IF IsSel(pt[i]) THEN (IF g = pt[i][2] THEN Ends(pt, i + 1, s, p, 0, fs, Append(acc, p), vs) ELSE NoMatch)
  ELSE IF p > Len(s) THEN NoMatch
  ELSE IF IsWild(pt[i])
       THEN LET x == Take_(pt[i], s, p, fs) IN
            IF x.e = 0 THEN NoMatch ELSE Ends(pt, i + 1, s, x.e, x.g, fs, Append(acc, x.e), Append(vs, x.v))
       ELSE IF pt[i][2] = s[p] THEN Ends(pt, i + 1, s, p + 1, 0, fs, Append(acc, p + 1), vs)
       ELSE NoMatch
Match(pt, s, fs) == Ends(pt, 1, s, 1, 0, fs, << >>, << >>)
Texts(pt, s, m) == [j \in 1..Len(m.v) |-> Sub(s, m.v[j][1], m.v[j][2] - 1)]
(* every value is the whole text its wildcard stands for *)
WholeTexts(pt, m) == LET W == SelectSeq([k \in 1..Len(pt) |-> k], LAMBDA k : IsWild(pt[k]))
                     IN \A j \in 1..Len(W) : m.v[j] = <<IF W[j] = 1 THEN 1 ELSE m.e[W[j] - 1], m.e[W[j]]>>

(* the request path without its leading and trailing slashes *)
RECURSIVE LStrip(_)
LStrip(s) == IF s # << >> /\ s[1] = SL THEN LStrip(Tail(s)) ELSE s
RECURSIVE RStrip(_)
RStrip(s) == IF s # << >> /\ s[Len(s)] = SL THEN RStrip(Take(s, Len(s) - 1)) ELSE s
Strip(s) == RStrip(LStrip(s))

FirstDiff(p, q) == CHOOSE k \in 1..Min2(Len(p), Len(q)) : p[k] # q[k] /\ \A j \in 1..(k - 1) : p[j] = q[j]
FirstDiffers(p, q) == \E k \in 1..Min2(Len(p), Len(q)) : p[k] # q[k]
(* literal text before a wildcard; the alternative asked for before any *)
Better(p, q) == IF FirstDiffers(p, q) THEN LET k == FirstDiff(p, q) IN Rank(p[k]) < Rank(q[k]) ELSE Len(p) > Len(q)
(* the selected pattern of the set P, or 0 *)
Flat(P, s, fs) == LET M == {p \in P : Match(p, s, fs).ok}
                  IN IF M = {} THEN NoPat ELSE CHOOSE p \in M : \A q \in M \ {p} : Better(p, q)

(* one wildcard (with its filter) per position *)
Conflict(p, q) == \E k \in 1..Min2(Len(p), Len(q)) :
   /\ IsWild(p[k]) /\ IsWild(q[k]) /\ p[k] # q[k] /\ \A j \in 1..(k - 1) : p[j] = q[j]

(* --------------------------- the tree walk ------------------------------ *)
RECURSIVE Tree(_, _, _, _, _, _)
Tree(P, d, s, p, g, fs) ==
  LET Q == {r \in P : g # 0 /\ Len(r) > d /\ r[d + 1] = <<2, g, << >> >>}
      y == IF Q = {} THEN NoPat ELSE Tree(Q, d + 1, s, p, 0, fs)
  IN IF y # NoPat THEN y
     ELSE IF p > Len(s) THEN (IF \E r \in P : Len(r) = d THEN CHOOSE r \in P : Len(r) = d ELSE NoPat)
     ELSE LET L == {r \in P : Len(r) > d /\ Rank(r[d + 1]) = 1 /\ r[d + 1][2] = s[p]}
              W == {r \in P : Len(r) > d /\ IsWild(r[d + 1])}
              x == IF L = {} THEN NoPat ELSE Tree(L, d + 1, s, p + 1, 0, fs)
          IN IF x # NoPat THEN x
             ELSE IF W = {} THEN NoPat
             ELSE LET q == Take_((CHOOSE r \in W : TRUE)[d + 1], s, p, fs) IN
                  IF q.e = 0 THEN NoPat ELSE Tree(W, d + 1, s, q.e, q.g, fs)

(* -------------------------- building a URL ------------------------------ *)
(* The canonical text of a wildcard's value: an int loses its leading zeros and the sign of
   zero, a float has a point and no needless zeros; any other value is the text itself.     *)
DigitOf(c) == IF c \in 1632..1641 THEN c - 1632 + 48 ELSE IF c \in 1776..1785 THEN c - 1776 + 48
              ELSE IF c \in 65296..65305 THEN c - 65296 + 48 ELSE IF c \in 2406..2415 THEN c - 2406 + 48
              ELSE IF c \in 2534..2543 THEN c - 2534 + 48 ELSE c
RECURSIVE DropZeros(_)
DropZeros(s) == IF Len(s) > 1 /\ s[1] = 48 THEN DropZeros(Tail(s)) ELSE s
RECURSIVE CutZeros(_)
CutZeros(s) == IF Len(s) > 1 /\ s[Len(s)] = 48 THEN CutZeros(Take(s, Len(s) - 1)) ELSE s
CanonNat(s) == DropZeros([k \in 1..Len(s) |-> DigitOf(s[k])])
CanonInt(s) == IF s[1] = 45 THEN LET d == CanonNat(Tail(s)) IN IF d = <<48>> THEN d ELSE <<45>> \o d ELSE CanonNat(s)
CanonFloat(s) ==
  LET neg == s[1] = 45
      u == IF neg THEN Tail(s) ELSE s
      dot == IF \E k \in 1..Len(u) : u[k] = 46 THEN CHOOSE k \in 1..Len(u) : u[k] = 46 ELSE Len(u) + 1
      w == CanonNat(Take(u, dot - 1))
      f == CutZeros([k \in 1..Len(Sub(u, dot + 1, Len(u))) |-> DigitOf(Sub(u, dot + 1, Len(u))[k])])
  IN (IF neg THEN <<45>> ELSE << >>) \o w \o <<46>> \o (IF f = << >> THEN <<48>> ELSE f)
Canon(w, t) == CASE w[2] = -2 -> CanonInt(t) [] w[2] = -3 -> CanonFloat(t) [] OTHER -> t
RECURSIVE Build(_, _, _)
Build(pt, i, ts) ==
  IF i > Len(pt) THEN << >>
  ELSE IF IsWild(pt[i]) THEN Canon(pt[i], ts[1]) \o Build(pt, i + 1, Tail(ts))
  ELSE IF IsSel(pt[i]) THEN Build(pt, i + 1, ts)
  ELSE <<pt[i][2]>> \o Build(pt, i + 1, ts)
Filters(pt) == LET w == SelectSeq(pt, LAMBDA x : IsWild(x)) IN [k \in 1..Len(w) |-> w[k]]
CanonAll(pt, ts) == LET w == Filters(pt) IN [k \in 1..Len(ts) |-> Canon(w[k], ts[k])]
(* does the canonical URL lead back to the same values? *)
Returns(pt, ts, fs) == LET u == Build(pt, 1, ts)  m == Match(pt, u, fs)
                       IN m.ok /\ CanonAll(pt, Texts(pt, u, m)) = CanonAll(pt, ts)
(* The one way it does not: a number not written canonically in the path, behind a wildcard
   with a pattern of its own (which may swallow, or look ahead at, the changed digits).     *)
Swallowed(pt, ts) == LET w == Filters(pt) IN
   \E k \in 1..Len(w) : \E j \in 1..(k - 1) : w[k][2] \in {-2, -3} /\ w[j][2] # 0 /\ Canon(w[k], ts[k]) # ts[k]

(* --------------------- model 1: choice among rules ---------------------- *)
VARIABLES S, hist, i
A == 97  B == 98  N1 == 49
Li(cs) == [k \in 1..Len(cs) |-> <<0, cs[k]>>]
Wi(n, f) == << <<1, n, f>> >>
Se(k) == << <<2, k, 0>> >>
Alt(cap, pre, grp, post) == [cap |-> cap, pre |-> pre, grp |-> grp, post |-> post]
One(c) == <<Set_(FALSE, <<c>>, 1, 1)>>
(* the third: a(1)|(a)|b+ *)
FS == << <<Set_(FALSE, <<A, B>>, 1, 0)>>, <<Set_(FALSE, <<A>>, 0, 0)>>,
         << [t |-> "rex", alts |-> <<Alt(TRUE, <<A>>, One(N1), << >>), Alt(TRUE, << >>, One(A), << >>), Alt(FALSE, << >>, <<Set_(FALSE, <<B>>, 1, 0)>>, << >>)>>] >> >>
U == << Li(<<A>>), Li(<<A, B>>), Li(<<A, SL, B>>), Li(<<A, SL, A>>), Li(<<A, SL>>) \o Wi(1, 0), Li(<<A, SL>>) \o Wi(2, 0) \o Li(<<SL, B>>),
        Wi(1, -2), Wi(1, -2) \o Li(<<B>>), Wi(3, 0), Wi(2, 0) \o Li(<<SL>>) \o Wi(1, 0), Li(<<A>>) \o Wi(1, 1), Li(<<A>>) \o Wi(2, 0), Li(<<A, B>>) \o Wi(1, 2) \o Li(<<B>>),
        Li(<<A, SL>>) \o Wi(1, -1), Li(<<A, SL>>) \o Wi(1, -1) \o Li(<<SL, B>>), Wi(4, 1) \o Wi(5, -2), Li(<< >>), Li(<<A, SL, B, SL, B>>), Wi(1, 0) \o Li(<<SL, B>>),
        Wi(1, 3), Wi(2, 3) \o Se(1), Wi(1, 3) \o Se(2) \o Li(<<B>>), Wi(1, 3) \o Se(2) \o Wi(2, 0), Wi(3, 3) \o Wi(1, 0), Wi(1, 3) \o Li(<<SL>>) \o Wi(2, 3) \o Se(2) >>
MaxR == EnvInt("MAXR")
PLen == EnvInt("PLEN")
Paths == {s \in UNION {[1..k -> {A, B, SL, N1}] : k \in 0..PLen} : s = << >> \/ (s[1] # SL /\ s[Len(s)] # SL)}
PatU == [k \in 1..Len(U) |-> Pat(U[k])]
Compatible(X, k) == \A x \in X : ~Conflict(PatU[x], PatU[k])
UInit == S = {} /\ hist = << >> /\ i = 0
UNext == \E k \in 1..Len(U) : /\ Cardinality(S) < MaxR /\ \A x \in S : x < k
                              /\ Compatible(S, k) /\ S' = S \cup {k} /\ UNCHANGED <<hist, i>>
PS == {PatU[k] : k \in S}
TreeIsFlat == \A s \in Paths : Tree(PS, 0, s, 1, 0, FS) = Flat(PS, s, FS)
(* whatever is selected matches, and nothing matching is lost *)
Sound == \A s \in Paths : LET x == Flat(PS, s, FS) IN
           IF x = NoPat THEN \A p \in PS : ~Match(p, s, FS).ok ELSE x \in PS /\ Match(x, s, FS).ok
(* only the paths that select a rule are emitted (all others are "not found"), in bounded lines *)
Pick_(s, x) == <<s, CHOOSE k \in S : PatU[k] = x, Texts(x, s, Match(x, s, FS))>>
UEmit == LET H == SetToSeq({s \in Paths : Flat(PS, s, FS) # NoPat})
             R == [j \in 1..Len(H) |-> Pick_(H[j], Flat(PS, H[j], FS))]
         IN \A c \in 0..(Len(R) \div 120) : Out([rs |-> SetToSeq(S), res |-> Sub(R, 120 * c + 1, Min2(Len(R), 120 * c + 120))])
UShow == i = 0 => Out([u |-> U])
UShowInit == S = {} /\ hist = << >> /\ i = 0
UShowNext == i = 0 /\ i' = 1 /\ UNCHANGED <<S, hist>>

(* ---------------------- model 1b: building URLs ------------------------- *)
(* rules made of up to three parts, paths over {a, 0, 1, -, .} : the round trip *)
BParts == << Li(<<A>>), Li(<<46>>), Li(<<48>>), Wi(1, -2), Wi(2, -3), Wi(3, 1), Wi(4, 2), Wi(5, -1), Li(<<SL>>), Wi(6, 0) >>
BFS == << <<Set_(FALSE, <<A, 48>>, 0, 0)>>, <<Set_(FALSE, <<49, 45>>, 1, 2)>> >>
BPaths == UNION {[1..k -> {A, 48, 49, 45, 46}] : k \in 1..PLen} \cup {<<A, SL, 48, 49>>, <<49, SL, A>>, <<45, 48, SL, 49>>}
BRules == {t \in UNION {[1..k -> 1..Len(BParts)] : k \in 1..MaxR} :
             /\ t[1] # 9 /\ t[Len(t)] # 9
             /\ \A x, y \in DOMAIN t : x # y /\ t[x] = t[y] => t[x] \in {1, 2, 3, 9}}
RECURSIVE Cat(_)
Cat(t) == IF t = << >> THEN << >> ELSE BParts[t[1]] \o Cat(Tail(t))
BInit == S \in BRules /\ hist = << >> /\ i = 0
BNext == FALSE /\ UNCHANGED <<S, hist, i>>
BPat == Pat(Cat(S))
BHits == {s \in BPaths : Match(BPat, s, BFS).ok}
BTexts(s) == Texts(BPat, s, Match(BPat, s, BFS))
RoundTrip == \A s \in BHits : Returns(BPat, BTexts(s), BFS) \/ Swallowed(BPat, BTexts(s))
(* texts spelled canonically always lead back, to the very same path *)
CanonicalIsExact == \A s \in BHits : CanonAll(BPat, BTexts(s)) = BTexts(s) => Build(BPat, 1, BTexts(s)) = s
BEmit == LET H == SetToSeq(BHits) IN \A c \in 0..(Len(H) \div 60) :
   Out([it |-> Cat(S), res |-> [k \in 1..Min2(60, Len(H) - 60 * c) |->
        LET s == H[60 * c + k] IN <<s, BTexts(s), Returns(BPat, BTexts(s), BFS)>>]])

(* ------------------------- the abstract router -------------------------- *)
(* routes: {[p, m: {[m, h, n]}]}, names: {<<name, p>>}, hooks: {[p, h]}, part: {[p, h]} (hooks for paths without a route) *)
R0 == [routes |-> {}, names |-> {}, hooks |-> {}, part |-> {}]
RouteOf(st, p) == {r \in st.routes : r.p = p}
AllPats(st) == {r.p : r \in st.routes} \cup {h.p : h \in st.hooks \cup st.part}
PrefixOf(p, q) == Len(p) <= Len(q) /\ \A k \in 1..Len(p) : p[k] = q[k]
ReplaceR(st, r) == [st EXCEPT !.routes = {x \in @ : x.p # r.p} \cup {r}]

Apply(st, o) ==
  CASE o.op = "add" ->
       LET p == Pat(o.it)
           M == {Up(o.ms[k]) : k \in 1..Len(o.ms)}
           old == RouteOf(st, p)
           has == IF old = {} THEN {} ELSE (CHOOSE r \in old : TRUE).m
           taken == \E x \in has : x.m \in M
           nt == o.name # "" /\ \E x \in st.names : x[1] = o.name /\ x[2] # p
           rej == \/ \E q \in AllPats(st) : Conflict(p, q)
                  \/ ~o.ow /\ (taken \/ nt)
           new == [p |-> p, m |-> {x \in has : x.m \notin M} \cup {[m |-> m, h |-> o.h, n |-> NamesOf(o.it)] : m \in M}]
       IN IF rej THEN [st |-> st, ok |-> FALSE]
          ELSE [st |-> [ReplaceR(st, new) EXCEPT !.names = IF o.name = "" THEN @ ELSE {x \in @ : x[1] # o.name} \cup {<<o.name, p>>}], ok |-> TRUE]
    [] o.op = "remove" ->
       LET p == Pat(o.it) IN
       [st |-> [st EXCEPT !.routes = {r \in @ : r.p # p}, !.names = {x \in @ : x[2] # p}], ok |-> TRUE]
    [] o.op = "removename" ->
       LET q == {x \in st.names : x[1] = o.name} IN
       IF q = {} THEN [st |-> st, ok |-> FALSE]
       ELSE LET p == (CHOOSE x \in q : TRUE)[2] IN
            [st |-> [st EXCEPT !.routes = {r \in @ : r.p # p}, !.names = {x \in @ : x[2] # p}], ok |-> TRUE]
    [] o.op = "removeprefix" ->
       LET p == Pat(o.it) IN
       [st |-> [st EXCEPT !.routes = {r \in @ : ~PrefixOf(p, r.p)}, !.names = {x \in @ : ~PrefixOf(p, x[2])}], ok |-> TRUE]
    [] o.op = "delmethod" ->
       LET old == RouteOf(st, Pat(o.it)) IN
       IF old = {} THEN [st |-> st, ok |-> TRUE]
       ELSE LET r == CHOOSE r \in old : TRUE IN
            [st |-> ReplaceR(st, [r EXCEPT !.m = {x \in @ : x.m \notin {Up(o.ms[k]) : k \in 1..Len(o.ms)}}]), ok |-> TRUE]
    [] o.op = "hook" ->
       LET p == Pat(o.it) IN
       IF \E q \in AllPats(st) : Conflict(p, q) THEN [st |-> st, ok |-> FALSE]
       ELSE [st |-> [st EXCEPT !.hooks = {x \in @ : x.p # p} \cup {[p |-> p, h |-> o.h]}], ok |-> TRUE]
    [] o.op = "unhook" ->
       LET p == Pat(o.it) IN [st |-> [st EXCEPT !.hooks = {x \in @ : x.p # p}, !.part = {x \in @ : x.p # p}], ok |-> TRUE]
    [] o.op = "phook" ->   \* beside the other kind of hook of the same rule, not in place of it
       LET p == Pat(o.it) IN
       IF \E q \in AllPats(st) : Conflict(p, q) THEN [st |-> st, ok |-> FALSE]
       ELSE [st |-> [st EXCEPT !.part = {x \in @ : x.p # p} \cup {[p |-> p, h |-> o.h]}], ok |-> TRUE]

RECURSIVE Run(_, _, _)
Run(st, ops, oks) == IF ops = << >> THEN [st |-> st, oks |-> oks]
                     ELSE LET x == Apply(st, ops[1]) IN Run(x.st, Tail(ops), Append(oks, x.ok))

(* the answer to one request *)
RECURSIVE SeqLess(_, _)
SeqLess(a, b) == IF b = << >> THEN FALSE ELSE IF a = << >> THEN TRUE
                 ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE SeqLess(Tail(a), Tail(b))
GET == <<71, 69, 84>>  HEAD == <<72, 69, 65, 68>>  ANY == <<65, 78, 89>>
Cands(m) == IF m = HEAD THEN <<HEAD, GET, ANY>> ELSE <<m, ANY>>
HooksFor(st, p, e) ==
  LET H == {h \in st.hooks : PrefixOf(h.p, p)}
      Q == SetToSortSeq(H, LAMBDA x, y : Len(x.p) < Len(y.p))
  IN [k \in 1..Len(Q) |-> <<Q[k].h, IF Len(Q[k].p) = 0 THEN 0 ELSE e[Len(Q[k].p)] - 1>>]
AnswerOf(st, p, s, meth, fs) ==
  LET r == CHOOSE r \in st.routes : r.p = p
      y == Match(p, s, fs)
      c == SelectSeq(Cands(Up(meth)), LAMBDA m : \E x \in r.m : x.m = m)
  IN IF c = << >> THEN [code |-> 405, allow |-> SetToSortSeq({x.m : x \in r.m}, SeqLess), pat |-> p]
     ELSE LET x == CHOOSE x \in r.m : x.m = c[1] IN
          [code |-> 200, h |-> x.h, m |-> x.m, names |-> x.n, vals |-> Texts(p, s, y), hooks |-> HooksFor(st, p, y.e), pat |-> p]
Answer(st, path, meth, fs) ==
  LET s == Strip(path)
      p == Flat({r.p : r \in st.routes}, s, fs)
  IN IF p = NoPat THEN [code |-> 404] ELSE AnswerOf(st, p, s, meth, fs)
(* A router may accept rules that put different wildcards at one position (this one refuses them).
   Then which of the two is tried first is open, and nothing else: some best matching rule answers. *)
Put(st, o) == LET p == Pat(o.it)
                  M == {Up(o.ms[k]) : k \in 1..Len(o.ms)}
                  old == RouteOf(st, p)
                  has == IF old = {} THEN {} ELSE (CHOOSE r \in old : TRUE).m
              IN ReplaceR(st, [p |-> p, m |-> {x \in has : x.m \notin M} \cup {[m |-> m, h |-> o.h, n |-> NamesOf(o.it)] : m \in M}])
RECURSIVE PutAll(_, _)
PutAll(st, ops) == IF ops = << >> THEN st ELSE PutAll(Put(st, ops[1]), Tail(ops))
AnswersOf(st, path, meth, fs) ==
  LET s == Strip(path)
      M == {r.p : r \in {r \in st.routes : Match(r.p, s, fs).ok}}
      T == {p \in M : ~\E q \in M \ {p} : Better(q, p)}
  IN IF M = {} THEN <<[code |-> 404]>> ELSE SetToSeq({AnswerOf(st, p, s, meth, fs) : p \in T})

(* model invariants of the abstract router: indexes agree, one filter per position *)
Consistent(st) == /\ \A x \in st.names : RouteOf(st, x[2]) # {}
                  /\ \A x \in st.names, y \in st.names : x[1] = y[1] => x = y
                  /\ \A r \in st.routes, q \in st.routes : r.p = q.p => r = q
                  /\ \A p \in AllPats(st), q \in AllPats(st) : ~Conflict(p, q)

(* ------------------------- model 2: dispatch ---------------------------- *)
(* one route, every assignment of method subsets; ops grow one at a time *)
POST == <<80, 79, 83, 84>>  PUT == <<80, 85, 84>>  gEt == <<103, 69, 116>>  any == <<97, 110, 121>>
RuleA == Li(<<A>>)  RuleX == Wi(1, 0)
DOps == {[op |-> "add", it |-> it, ms |-> ms, h |-> h, name |-> "", ow |-> ow] :
            it \in {RuleA, RuleX}, ms \in {<<GET>>, <<HEAD, POST>>, <<ANY>>, <<gEt>>, <<any, PUT>>}, h \in {1}, ow \in BOOLEAN}
     \cup {[op |-> "delmethod", it |-> it, ms |-> ms, h |-> 0, name |-> "", ow |-> FALSE] : it \in {RuleA}, ms \in {<<gEt>>, <<POST, ANY>>}}
     \cup {[op |-> "remove", it |-> RuleA, ms |-> << >>, h |-> 0, name |-> "", ow |-> FALSE]}
MaxOps == EnvInt("MAXOPS")
DInit == S = R0 /\ hist = << >> /\ i = 0
DNext == \E o \in DOps : LET o2 == IF o.op = "add" THEN [o EXCEPT !.h = Len(hist) + 1] ELSE o
                             x == Apply(S, o2) IN
            Len(hist) < MaxOps /\ S' = x.st /\ hist' = Append(hist, o2) /\ UNCHANGED i
DMeths == {GET, HEAD, POST, PUT, ANY, gEt, <<79, 80, 84>>}
DEmit == Len(hist) = MaxOps => Out([ops |-> hist, oks |-> Run(R0, hist, << >>).oks,
   ans |-> SetToSeq({[s |-> s, m |-> m, a |-> Answer(S, s, m, FS)] : s \in {<<SL, A>>, <<SL, B>>, <<SL, B, SL, B>>}, m \in DMeths})])
DispatchOK == /\ Consistent(S)
              /\ \A m \in DMeths : LET a == Answer(S, <<SL, A>>, m, FS) IN (a.code = 405) => S.routes # {}

(* ------------------------ model 3: edit histories ----------------------- *)
HRules == << Li(<<A, B>>), Li(<<A, B, A>>), Li(<<A, SL, B>>), Li(<<A, SL>>) \o Wi(1, 0), Li(<<A, SL>>) \o Wi(2, 0) \o Li(<<SL, B>>),
             Li(<<A, SL>>) \o Wi(3, -2), Li(<< >>), Li(<<B, SL, B>>) >>
Op(op, it, h, name, ow) == [op |-> op, it |-> it, ms |-> IF op = "add" THEN <<GET>> ELSE << >>, h |-> h, name |-> name, ow |-> ow]
HUNI == EnvInt("HUNI")
(* universes of edits explored exhaustively *)
HOps == CASE HUNI = 1 ->
            << Op("add", HRules[1], 1, "", FALSE), Op("add", HRules[2], 2, "", FALSE), Op("add", HRules[4], 4, "", FALSE), Op("add", HRules[5], 5, "", FALSE), Op("add", HRules[6], 6, "", FALSE),
               Op("add", HRules[1], 7, "", TRUE), Op("remove", HRules[1], 0, "", FALSE), Op("remove", HRules[2], 0, "", FALSE), Op("remove", HRules[4], 0, "", FALSE), Op("remove", HRules[5], 0, "", FALSE),
               Op("removeprefix", Li(<<A, B>>), 0, "", FALSE), Op("removeprefix", Li(<<A, SL>>), 0, "", FALSE),
               Op("hook", Li(<<A>>), 21, "", FALSE), Op("unhook", Li(<<A>>), 0, "", FALSE), Op("hook", HRules[4], 22, "", FALSE), Op("unhook", HRules[4], 0, "", FALSE) >>
         [] HUNI = 2 ->
            << Op("add", HRules[1], 1, "n", FALSE), Op("add", HRules[2], 2, "n", FALSE), Op("add", HRules[2], 3, "m", TRUE), Op("add", HRules[1], 4, "m", TRUE), Op("add", HRules[3], 5, "", FALSE),
               Op("remove", HRules[1], 0, "", FALSE), Op("remove", HRules[2], 0, "", FALSE), Op("removename", HRules[1], 0, "n", FALSE), Op("removename", HRules[1], 0, "m", FALSE),
               Op("removeprefix", Li(<<A>>), 0, "", FALSE), Op("hook", Li(<<A>>), 21, "", FALSE), Op("unhook", Li(<<A>>), 0, "", FALSE), Op("remove", HRules[3], 0, "", FALSE) >>
         [] HUNI = 3 ->
            << Op("add", HRules[7], 1, "", FALSE), Op("add", HRules[1], 2, "", FALSE), Op("add", HRules[3], 3, "", FALSE), Op("add", HRules[4], 4, "", FALSE), Op("add", HRules[8], 5, "", FALSE),
               Op("remove", HRules[7], 0, "", FALSE), Op("remove", HRules[1], 0, "", FALSE), Op("remove", HRules[3], 0, "", FALSE), Op("remove", HRules[4], 0, "", FALSE), Op("remove", HRules[8], 0, "", FALSE),
               Op("hook", Li(<< >>), 21, "", FALSE), Op("unhook", Li(<< >>), 0, "", FALSE), Op("hook", Li(<<A, SL>>), 22, "", FALSE), Op("unhook", Li(<<A, SL>>), 0, "", FALSE),
               Op("hook", HRules[3], 23, "", FALSE), Op("unhook", HRules[3], 0, "", FALSE), Op("hook", HRules[6], 24, "", FALSE) >>
         [] HUNI = 4 ->   \* literal branching: nodes that carry a hook or nothing are split and merged
            << Op("add", Li(<<A, B>>), 1, "", FALSE), Op("add", Li(<<A, A>>), 2, "", FALSE), Op("add", Li(<<A, B, A>>), 3, "", FALSE),
               Op("remove", Li(<<A, B>>), 0, "", FALSE), Op("remove", Li(<<A, A>>), 0, "", FALSE), Op("remove", Li(<<A, B, A>>), 0, "", FALSE),
               Op("hook", Li(<<A>>), 21, "", FALSE), Op("unhook", Li(<<A>>), 0, "", FALSE), Op("hook", Li(<<A, B>>), 22, "", FALSE) >>
         [] HUNI = 5 ->   \* the same below and above a wildcard
            << Op("add", Wi(1, 0) \o Li(<<SL, A>>), 1, "", FALSE), Op("add", Wi(2, 0) \o Li(<<SL, B>>), 2, "", FALSE), Op("add", Wi(3, 0), 3, "", FALSE), Op("add", Li(<<A, SL, B>>), 4, "", FALSE),
               Op("remove", Wi(1, 0) \o Li(<<SL, A>>), 0, "", FALSE), Op("remove", Wi(2, 0) \o Li(<<SL, B>>), 0, "", FALSE), Op("remove", Wi(3, 0), 0, "", FALSE), Op("remove", Li(<<A, SL, B>>), 0, "", FALSE),
               Op("hook", Wi(4, 0), 21, "", FALSE), Op("hook", Li(<<A>>), 22, "", FALSE) >>
         [] HUNI = 6 ->   \* both kinds of hooks on one node
            << Op("add", Li(<<A, B>>), 1, "", FALSE), Op("add", Li(<<A, SL>>) \o Wi(1, 0), 2, "", FALSE), Op("remove", Li(<<A, B>>), 0, "", FALSE), Op("remove", Li(<<A, SL>>) \o Wi(1, 0), 0, "", FALSE),
               Op("hook", Li(<<A>>), 21, "", FALSE), Op("phook", Li(<<A>>), 22, "", FALSE), Op("unhook", Li(<<A>>), 0, "", FALSE),
               Op("phook", Li(<<A, B>>), 23, "", FALSE), Op("hook", Li(<<A, B>>), 24, "", FALSE), Op("unhook", Li(<<A, B>>), 0, "", FALSE),
               Op("phook", Li(<<A, SL>>) \o Wi(1, 0), 25, "", FALSE), Op("hook", Li(<<A, SL>>) \o Wi(2, 0), 26, "", FALSE) >>
HDepth == EnvInt("HDEPTH")
HPaths == { << >>, <<A>>, <<A, B>>, <<A, B, A>>, <<A, B, B>>, <<A, SL, B>>, <<A, SL, N1>>, <<A, SL, N1, SL, B>>, <<A, SL, B, SL, B>>, <<B>>, <<B, SL, B>>, <<A, SL, B, A>> }
(* prefix removal is specified for routes only: not explored over hooks of the removed subtree;
   removal names a rule with the filters it was registered with: other filters are not explored *)
TextOf(p) == [k \in 1..Len(p) |-> IF IsWild(p[k]) THEN <<1, 0>> ELSE <<p[k][1], p[k][2]>>]
Alike(p, q) == TextOf(p) = TextOf(q) /\ p # q
Enabled(st, o) ==
  LET p == Pat(o.it) IN
  CASE o.op = "removeprefix" -> /\ \A h \in st.hooks \cup st.part : ~PrefixOf(TextOf(p), TextOf(h.p))
                                /\ \A r \in st.routes : PrefixOf(TextOf(p), TextOf(r.p)) => PrefixOf(p, r.p)
    [] o.op \in {"remove", "delmethod"} -> \A r \in st.routes : ~Alike(r.p, p)
    [] o.op = "unhook" -> \A h \in st.hooks \cup st.part : ~Alike(h.p, p)
    [] OTHER -> TRUE
HInit == S = R0 /\ hist = << >> /\ i = 0
HNext == /\ i < HDepth /\ i' = i + 1 /\ UNCHANGED hist
         /\ \E k \in 1..Len(HOps) : Enabled(S, HOps[k]) /\ S' = Apply(S, HOps[k]).st
HView == S
HOK == Consistent(S)
HEmit == Out([st |-> S, lvl |-> i,
   ans |-> SetToSeq({[s |-> s, a |-> Answer(S, s, GET, FS)] : s \in HPaths}),
   moves |-> [k \in 1..Len(HOps) |-> IF Enabled(S, HOps[k]) THEN LET x == Apply(S, HOps[k]) IN [ok |-> x.ok, st |-> x.st] ELSE [off |-> TRUE]]])
HShow == i = 0 => Out([ops |-> HOps])
HShowNext == i = 0 /\ i' = 1 /\ UNCHANGED <<S, hist>>

(* ------------------------------- judges --------------------------------- *)
(* kind "path": rule set rules, table fs, path s: the chosen rule's pattern and texts *)
JPath(o) ==
  LET P == {Pat(o.rules[k]) : k \in 1..Len(o.rules)}
      s == Strip(o.s)
      x == Flat(P, s, o.fs)
  IN [sel |-> IF x = NoPat THEN << >> ELSE SelectSeq([k \in 1..Len(o.rules) |-> k], LAMBDA k : Pat(o.rules[k]) = x),
      vals |-> IF x = NoPat THEN << >> ELSE Texts(x, s, Match(x, s, o.fs))]
JCompat(o) == LET P == [k \in 1..Len(o.rules) |-> Pat(o.rules[k])]
              IN [bad |-> SetToSeq({k \in 1..Len(o.rules) : \E j \in 1..(k - 1) : Conflict(P[j], P[k])})]
(* kind "hist": ops, then requests *)
JHist(o) == LET x == Run(R0, o.ops, << >>) IN
  [oks |-> x.oks, ans |-> [k \in 1..Len(o.req) |-> Answer(x.st, o.req[k].s, o.req[k].m, o.fs)],
   pats |-> SetToSeq({r.p : r \in x.st.routes}), names |-> SetToSeq(x.st.names), hooks |-> SetToSeq(x.st.hooks), part |-> SetToSeq(x.st.part), ok |-> Consistent(x.st)]
(* kind "loose": every answer that some choice between clashing wildcards allows *)
JLoose(o) == LET st == PutAll(R0, o.ops) IN [ans |-> [k \in 1..Len(o.req) |-> AnswersOf(st, o.req[k].s, o.req[k].m, o.fs)]]
(* kind "re": the regular expression engine itself *)
JRe(o) == IF o.f > 0 /\ IsRex(<<1, o.f>>, o.fs) THEN Rex(o.fs[o.f][1].alts, 1, 0, o.s, 1)
          ELSE [e |-> Re(CASE o.f = -2 -> ReInt [] o.f = -3 -> ReFloat [] o.f = -1 -> RePath(o.tail) [] OTHER -> o.fs[o.f], o.s, 1)]
(* kind "build": the texts matched in s; the outcome of the canonical URL *)
JBuild(o) == LET p == Pat(o.it)  m == Match(p, Strip(o.s), o.fs)
                 ts == IF m.ok THEN Texts(p, Strip(o.s), m) ELSE << >> IN
  [m |-> m.ok, vals |-> ts, back |-> m.ok /\ Returns(p, ts, o.fs), swal |-> m.ok /\ Swallowed(p, ts), whole |-> m.ok /\ WholeTexts(p, m),
   pat |-> p]
(* kind "url": what a built URL matches, and whether the rule's literals are where they belong *)
JUrl(o) == LET p == Pat(o.it)  m == Match(p, o.url, o.fs) IN
  [m |-> m.ok, vals |-> IF m.ok THEN Texts(p, o.url, m) ELSE << >>]
Judge(o) == CASE o.kind = "path" -> JPath(o) [] o.kind = "compat" -> JCompat(o) [] o.kind = "hist" -> JHist(o)
              [] o.kind = "loose" -> JLoose(o) [] o.kind = "re" -> JRe(o) [] o.kind = "build" -> JBuild(o) [] o.kind = "url" -> JUrl(o)
JInit == i = 1 /\ S = {} /\ hist = << >>
JNext == i < Len(In) /\ i' = i + 1 /\ UNCHANGED <<S, hist>>
JEmit == Out([i |-> i, r |-> Judge(In[i])])
=============================================================================

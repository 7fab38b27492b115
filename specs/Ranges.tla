------------------------------- MODULE Ranges -------------------------------
(* C17: which slice of a file a request is answered with.
   A Range header is read one character at a time (RFC 7233, section 2.1):
        bytes=( "," OWS )* spec ( OWS "," [ OWS spec ] )*        spec = first "-" [last] / "-" suffix
   The verdict for a header:
        list    the header is of that form; specs holds its ranges
        none    no byte range is asked for at all (other unit, nothing but separators): 416
        junk    anything else: 416, or a 206 that at least is consistent in itself
   A date is <<days, seconds>>.                                                                     *)
EXTENDS VF

Cap == 100000000
DASH == 45  COMMA == 44  SP == 32  TAB == 9
Digit(c) == c \in 48..57
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
Unit == <<98, 121, 116, 101, 115, 61>>                 \* bytes=

(* m: unit, gap (before a spec), a (first number), b (last number or suffix), ows (after a spec), junk *)
Start == [m |-> "unit", k |-> 0, a |-> -1, b |-> -1, specs |-> << >>, digit |-> FALSE, sp |-> FALSE]
Grow(n, c) == Min2(Cap, (IF n < 0 THEN 0 ELSE n) * 10 + (c - 48))
Junk(st) == [st EXCEPT !.m = "junk"]
Done(st) == st.a >= 0 \/ st.b >= 0
Push(st) == [st EXCEPT !.specs = Append(@, <<st.a, st.b>>), !.a = -1, !.b = -1]
Step(st0, c) ==
  LET st == [st0 EXCEPT !.digit = @ \/ Digit(c)] IN
  CASE st.m = "junk" -> st
    [] st.m = "unit" -> IF Lower(c) = Unit[st.k + 1] THEN [st EXCEPT !.k = @ + 1, !.m = IF st.k = 5 THEN "gap0" ELSE "unit"] ELSE [st EXCEPT !.m = "other"]
    [] st.m = "other" -> IF c = 61 THEN [st EXCEPT !.m = "otherset"] ELSE st
    [] st.m = "otherset" -> st
    [] st.m \in {"gap0", "gap"} ->
         IF c \in {SP, TAB} THEN IF st.m = "gap0" THEN Junk(st) ELSE [st EXCEPT !.sp = TRUE]
         ELSE IF c = COMMA THEN [st EXCEPT !.m = "gap", !.sp = FALSE]
         ELSE IF Digit(c) THEN [st EXCEPT !.m = "a", !.a = Grow(-1, c)]
         ELSE IF c = DASH THEN [st EXCEPT !.m = "b"]
         ELSE Junk(st)
    [] st.m = "a" -> IF Digit(c) THEN [st EXCEPT !.a = Grow(@, c)] ELSE IF c = DASH THEN [st EXCEPT !.m = "b"] ELSE Junk(st)
    [] st.m = "b" -> IF Digit(c) THEN [st EXCEPT !.b = Grow(@, c)]
                     ELSE IF c \in {COMMA, SP, TAB} /\ Done(st) THEN [Push(st) EXCEPT !.m = IF c = COMMA THEN "gap" ELSE "ows"]
                     ELSE Junk(st)
    [] st.m = "ows" -> IF c \in {SP, TAB} THEN st ELSE IF c = COMMA THEN [st EXCEPT !.m = "gap"] ELSE Junk(st)
Read(h) == FoldLeft(Step, Start, h)
(* <<class, specs>> *)
Header(st) ==
  IF st.m = "junk" THEN <<IF st.digit THEN "junk" ELSE "none", << >> >>
  ELSE IF st.m \in {"unit", "other"} THEN <<"none", << >> >>            \* no unit, no set
  ELSE IF st.m = "otherset" THEN <<"none", << >> >>
  ELSE IF st.m = "a" \/ (st.m = "b" /\ ~Done(st)) THEN <<IF st.digit THEN "junk" ELSE "none", << >> >>
  ELSE LET specs == IF st.m = "b" THEN Push(st).specs ELSE st.specs IN
       IF specs = << >> THEN <<"none", << >> >> ELSE <<"list", specs>>
Reversed(sp) == sp[1] >= 0 /\ sp[2] >= 0 /\ sp[2] < sp[1] /\ sp[2] < Cap

(* the slice [lo, hi) of a spec in a file of L bytes, << >> when it cannot be satisfied *)
Clip(sp, L) ==
  IF L = 0 \/ Reversed(sp) THEN << >>
  ELSE IF sp[1] < 0 THEN IF sp[2] = 0 THEN << >> ELSE <<Max2(0, L - sp[2]), L>>
  ELSE IF sp[1] >= L THEN << >>
  ELSE IF sp[2] < 0 THEN <<sp[1], L>> ELSE <<sp[1], Min2(sp[2] + 1, L)>>

(* what may be answered: 416 and/or these slices, or any consistent slice *)
Allowed(h, L) ==
  LET specs == h[2]
      first == IF specs = << >> THEN << >> ELSE Clip(specs[1], L)
      later == {Clip(specs[k], L) : k \in 2..Len(specs)} \ {<< >>}
      badset == \E k \in 1..Len(specs) : Reversed(specs[k])
  IN CASE h[1] = "none" -> [deny |-> TRUE, any |-> FALSE, slices |-> {}]
       [] h[1] = "junk" -> [deny |-> TRUE, any |-> TRUE, slices |-> {}]
       [] h[1] = "list" ->
            (* one reversed range makes the whole set invalid *)
            [deny |-> first = << >> \/ badset, any |-> FALSE, slices |-> IF first # << >> THEN {first} ELSE later]

(* ------------------------- generation: Range headers ---------------------- *)
VARIABLES h, st, n, i
Alphabet == {48, 49, 57, DASH, COMMA, SP, 120}
Seeds == {Unit}
MaxLen == EnvInt("MAXLEN")
Lengths == <<0, 1, 2, 10, 91, 1000>>
Init == h \in Seeds /\ st = Read(h) /\ n = 0 /\ i = 0
Next == n < MaxLen /\ \E c \in Alphabet : h' = Append(h, c) /\ st' = Step(st, c) /\ n' = n + 1 /\ UNCHANGED i
(* a slice is not empty and inside the file; clipping loses no byte that was asked for *)
Slices ==
  LET hd == Header(st) IN hd[1] = "list" =>
  \A k \in 1..Len(hd[2]), j \in 1..Len(Lengths) :
    LET sp == hd[2][k]  L == Lengths[j]  c == Clip(sp, L)
        Asked(x) == IF sp[1] < 0 THEN x >= L - sp[2] /\ x < L ELSE x >= sp[1] /\ (sp[2] < 0 \/ x <= sp[2])
    IN /\ c # << >> => 0 <= c[1] /\ c[1] < c[2] /\ c[2] <= L
       /\ L <= 100 => {x \in 0..(L - 1) : Asked(x)} = (IF c = << >> THEN {} ELSE c[1]..(c[2] - 1))
(* white space around a comma and empty list elements change nothing *)
Spacing == LET hd == Header(st) IN hd[1] = "list" => Header(Read(h \o <<SP, COMMA>>)) = hd /\ Header(Read(Unit \o <<COMMA>> \o Drop(h, 6))) = hd
Emit == LET hd == Header(st) IN
  Out([h |-> h, c |-> hd[1], a |-> [j \in 1..Len(Lengths) |-> LET al == Allowed(hd, Lengths[j]) IN <<al.deny, al.any, SetToSeq(al.slices)>>]])

(* ------------------------- the reply to a request ------------------------- *)
(* ims: "none" (absent or no date), "older", "notolder";  rng: a header, or <<"absent", ..>> *)
Status(method, ims, rng, L) ==
  IF ims = "notolder" THEN {304} ELSE IF rng[1] = "absent" THEN {200}
  ELSE LET al == Allowed(rng, L) IN (IF al.deny THEN {416} ELSE {}) \cup (IF al.any \/ al.slices # {} THEN {206} ELSE {})

(* -------------------------------- dates ----------------------------------- *)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthDays(y, m) == IF m = 2 THEN IF Leap(y) THEN 29 ELSE 28 ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
YearStart(y) == 365 * (y - 1970) + ((y - 1969) \div 4) - ((y - 1901) \div 100) + ((y - 1601) \div 400)
RECURSIVE Before(_, _)
Before(y, m) == IF m = 1 THEN 0 ELSE MonthDays(y, m - 1) + Before(y, m - 1)
Days(y, m, d) == YearStart(y) + Before(y, m) + d - 1
(* d = [y, mo, d, h, mi, s, zone (minutes east)] as <<days, seconds>> UTC *)
Norm(days, sec) == IF sec < 0 THEN <<days - 1, sec + 86400>> ELSE IF sec >= 86400 THEN <<days + 1, sec - 86400>> ELSE <<days, sec>>
Utc(d) == Norm(Days(d.y, d.mo, d.d), d.h * 3600 + d.mi * 60 + d.s - d.zone * 60)
NotOlder(a, b) == a[1] > b[1] \/ (a[1] = b[1] /\ a[2] >= b[2])
WeekDay(days) == (days + 3) % 7                         \* 0 = Monday

(* generation: civil dates around the events that time zones are confused by, with an offset in seconds for the file *)
VARIABLES d, off
Dates == [y : {1970, 1972, 1999, 2000, 2012, 2016, 2024, 2037}, mo : {1, 2, 3, 6, 7, 10, 12}, d : {1, 15, 28, 31}, h : {0, 2, 12, 23}, mi : {0, 30}, s : {0, 59}, zone : {0, 60, -330}]
Offs == {-86400, -10800, -7200, -3600, -1800, -60, -1, 0, 1, 60, 1800, 3600, 7200, 10800, 86400}
DInit == h = << >> /\ st = Start /\ n = 0 /\ i = 0 /\ d \in {x \in Dates : x.d <= MonthDays(x.y, x.mo) /\ (x.zone # 0 => x.h \in {2, 23} /\ x.s = 0)} /\ off = 0
DNext == off = 0 /\ \E o \in Offs \ {0} : off' = o /\ UNCHANGED <<h, st, n, i, d>>
FileTime == LET u == Utc(d) IN IF u[2] + off < 0 THEN <<u[1] - 1, u[2] + off + 86400>> ELSE IF u[2] + off >= 86400 THEN <<u[1] + 1, u[2] + off - 86400>> ELSE <<u[1], u[2] + off>>
(* the file is off seconds newer than the date *)
Order == FileTime[1] >= 0 => (NotOlder(Utc(d), FileTime) <=> off <= 0)
DEmit == FileTime[1] >= 0 => Out([d |-> d, w |-> WeekDay(Days(d.y, d.mo, d.d)), f |-> FileTime, no |-> NotOlder(Utc(d), FileTime)])

(* -------------------------------- judge ----------------------------------- *)
(* o = [method, len, hasrange, h (codes), ims, status, cr (<<lo, last, total>> or << >>), clen (-1 none), off (where the delivered bytes
        begin in the file, -1 when they are no slice of it), n (number of bytes delivered), chunk (largest), buf]     *)
Why(o) ==
  LET rng == IF o.hasrange THEN Header(Read(o.h)) ELSE <<"absent", << >> >>
      ok == Status(o.method, o.ims, rng, o.len)
      al == IF o.hasrange THEN Allowed(rng, o.len) ELSE [deny |-> FALSE, any |-> FALSE, slices |-> {}]
      get == o.method = "GET"
  IN IF o.status \notin ok THEN "status"
     ELSE IF o.status = 304 THEN IF o.n = 0 THEN "" ELSE "body-of-304"
     ELSE IF ~get /\ o.n # 0 THEN "body-of-HEAD"
     ELSE IF o.chunk > o.buf THEN "chunk-larger-than-the-buffer"
     ELSE IF o.status = 200 THEN
          IF o.clen # o.len THEN "content-length-of-200"
          ELSE IF get /\ ~(o.off = 0 /\ o.n = o.len) THEN "bytes-of-200" ELSE IF o.cr # << >> THEN "content-range-of-200" ELSE ""
     ELSE IF o.status = 206 THEN
          IF o.cr = << >> THEN "no-content-range"
          ELSE LET lo == o.cr[1]  hi == o.cr[2] + 1 IN
            IF o.cr[3] # o.len \/ ~(0 <= lo /\ lo < hi /\ hi <= o.len) THEN "content-range"
            ELSE IF o.clen # hi - lo THEN "content-length-of-206"
            ELSE IF get /\ ~(o.n = hi - lo /\ o.off = lo) THEN "bytes-of-206"
            ELSE IF ~al.any /\ <<lo, hi>> \notin al.slices THEN "other-slice" ELSE ""
     ELSE ""
JInit == h = << >> /\ st = Start /\ n = 0 /\ i = 1 /\ d = << >> /\ off = 0
JNext == i < Len(In) /\ i' = i + 1 /\ UNCHANGED <<h, st, n, d, off>>
JEmit == Out([i |-> i, why |-> Why(In[i])])
RInit == Init /\ d = << >> /\ off = 0
RNext == Next /\ UNCHANGED <<d, off>>
=============================================================================

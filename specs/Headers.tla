------------------------------- MODULE Headers -------------------------------
(* C14: response headers.
   1. Wire.  A header value is text; on the wire it is its UTF-8 encoding, handed to the server as one character per byte
      (PEP 3333).  Text with CR, LF or NUL has no wire form: it is refused where it is offered.
   2. Store.  A response holds, per field name (names are equal up to letter case), the values to send in order.  Setters
      replace, add or keep; a status decides which fields are withheld.                                              *)
EXTENDS VF

CR == 13  LF == 10  NUL == 0
Utf8(c) == IF c < 128 THEN <<c>> ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Wire(t) == FoldLeft(LAMBDA a, c : a \o Utf8(c), << >>, t)
(* what a client reads: the bytes decoded as UTF-8 *)
RECURSIVE Read(_)
Read(s) == IF s = << >> THEN << >>
           ELSE IF s[1] < 128 THEN <<s[1]>> \o Read(Tail(s))
           ELSE IF s[1] < 224 THEN <<(s[1] - 192) * 64 + (s[2] - 128)>> \o Read(Drop(s, 2))
           ELSE IF s[1] < 240 THEN <<(s[1] - 224) * 4096 + (s[2] - 128) * 64 + (s[3] - 128)>> \o Read(Drop(s, 3))
           ELSE <<(s[1] - 240) * 262144 + (s[2] - 128) * 4096 + (s[3] - 128) * 64 + (s[4] - 128)>> \o Read(Drop(s, 4))
Splits(t) == \E k \in 1..Len(t) : t[k] \in {CR, LF, NUL}
Surrogate(c) == c \in 55296..57343
(* other control characters and what UTF-8 cannot encode: may be refused, too *)
Odd(t) == \E k \in 1..Len(t) : t[k] < 32 \/ t[k] \in 127..159 \/ Surrogate(t[k])
NoWire(t) == \E k \in 1..Len(t) : Surrogate(t[k])
TokenChar(c) == c \in 48..57 \/ c \in 65..90 \/ c \in 97..122 \/ c \in {33, 35, 36, 37, 38, 39, 42, 43, 45, 46, 94, 95, 96, 124, 126}
Token(n) == n # << >> /\ \A k \in 1..Len(n) : TokenChar(n[k])
Lower(n) == [k \in 1..Len(n) |-> IF n[k] \in 65..90 THEN n[k] + 32 ELSE n[k]]

VARIABLES val, i, store, hist
vars == <<val, i, store, hist>>

(* -------------------------------- 1. wire --------------------------------- *)
Alphabet == {97, 58, 32, CR, LF, NUL, 9, 11, 127, 133, 233, 8232, 8364, 65279, 128512, 55357}
MaxLen == EnvInt("MAXLEN")
WInit == val = << >> /\ i = 0 /\ store = << >> /\ hist = << >>
WNext == Len(val) < MaxLen /\ \E c \in Alphabet : val' = Append(val, c) /\ UNCHANGED <<i, store, hist>>
WireSafe == ~Splits(val) /\ ~NoWire(val) => /\ \A k \in 1..Len(Wire(val)) : Wire(val)[k] \in 0..255 \ {CR, LF, NUL}
                                            /\ Read(Wire(val)) = val
WEmit == Out([v |-> val, bad |-> Splits(val)])

(* -------------------------------- 2. store -------------------------------- *)
(* store: a sequence of [n (lower case), v (values)], one entry per field *)
At(s, n) == IF \E k \in 1..Len(s) : s[k].n = n THEN CHOOSE k \in 1..Len(s) : s[k].n = n ELSE 0
Values(s, n) == LET k == At(s, n) IN IF k = 0 THEN << >> ELSE s[k].v
Without(s, n) == SelectSeq(s, LAMBDA e : e.n # n)
Put(s, n, v) == LET k == At(s, n) IN IF k = 0 THEN Append(s, [n |-> n, v |-> v]) ELSE [s EXCEPT ![k].v = v]
(* one call of a setter: k the entry point, n the name, v the values offered (one, or several for a list) *)
Step(s, op) ==
  LET n == Lower(op.n) IN
  IF op.k \in {"set", "update"} THEN Put(s, n, op.v)
  ELSE IF op.k = "append" THEN Put(s, n, Values(s, n) \o op.v)
  ELSE IF op.k = "setdefault" THEN (IF At(s, n) = 0 THEN Put(s, n, op.v) ELSE s)
  ELSE IF op.k = "del" THEN Without(s, n)
  ELSE IF op.k = "clear" THEN << >>
  ELSE s
ContentType == <<99,111,110,116,101,110,116,45,116,121,112,101>>
ContentLength == <<99,111,110,116,101,110,116,45,108,101,110,103,116,104>>
Allow == <<97,108,108,111,119>>
ContentEncoding == <<99,111,110,116,101,110,116,45,101,110,99,111,100,105,110,103>>
ContentLanguage == <<99,111,110,116,101,110,116,45,108,97,110,103,117,97,103,101>>
ContentRange == <<99,111,110,116,101,110,116,45,114,97,110,103,101>>
ContentMd5 == <<99,111,110,116,101,110,116,45,109,100,53>>
LastModified == <<108,97,115,116,45,109,111,100,105,102,105,101,100>>
SetCookie == <<115,101,116,45,99,111,111,107,105,101>>
Withheld(status) == IF status = 204 THEN {ContentType, ContentLength}
                    ELSE IF status = 304 THEN {Allow, ContentEncoding, ContentLanguage, ContentLength, ContentRange, ContentType, ContentMd5, LastModified}
                    ELSE {}
(* the header list: one line per value *)
Lines(s, status) == FoldLeft(LAMBDA a, e : IF e.n \in Withheld(status) THEN a ELSE a \o [k \in 1..Len(e.v) |-> <<e.n, e.v[k]>>], << >>, s)

Names == {<<88,45,65>>, <<120,45,97>>, <<67,111,110,116,101,110,116,45,84,121,112,101>>, <<99,111,110,116,101,110,116,45,108,101,110,103,116,104>>}
Vals == {<<49>>, <<50>>}
Ops == [k : {"set", "append"}, n : Names, v : {<<x>> : x \in Vals}]
       \cup [k : {"setdefault", "update"}, n : Names, v : {<<x>> : x \in Vals} \cup { <<<<49>>, <<50>>>> }]
       \cup [k : {"del"}, n : Names, v : { << >> }] \cup [k : {"clear"}, n : { << >> }, v : { << >> }]
MaxOps == EnvInt("MAXOPS")
SInit == val = << >> /\ i = 0 /\ store = << >> /\ hist = << >>
SNext == Len(hist) < MaxOps /\ \E op \in Ops : store' = Step(store, op) /\ hist' = Append(hist, op) /\ UNCHANGED <<val, i>>
OneEntryPerName == \A x, y \in 1..Len(store) : store[x].n = store[y].n => x = y
NoEmptyEntry == \A x \in 1..Len(store) : store[x].v # << >>
(* the last assignment to a field, and what was appended since, is what is sent *)
LastSet == \A n \in {Lower(m) : m \in Names} :
  LET mine == {k \in 1..Len(hist) : (hist[k].k \in {"set", "update", "del"} /\ Lower(hist[k].n) = n) \/ hist[k].k = "clear"} IN
  mine # {} => LET z == CHOOSE k \in mine : \A j \in mine : j <= k
                   after == SelectSeq(Sub(hist, z + 1, Len(hist)), LAMBDA o : o.n # << >> /\ Lower(o.n) = n /\ o.k = "append")
                   defs == SelectSeq(Sub(hist, z + 1, Len(hist)), LAMBDA o : o.n # << >> /\ Lower(o.n) = n /\ o.k = "setdefault") IN
               defs = << >> => Values(store, n) = (IF hist[z].k \in {"set", "update"} THEN hist[z].v ELSE << >>) \o [k \in 1..Len(after) |-> after[k].v[1]]
SentOnce == \A st \in {200, 204, 304} : \A n \in {Lower(m) : m \in Names} :
   LET sent == SelectSeq(Lines(store, st), LAMBDA l : l[1] = n) IN
   [k \in 1..Len(sent) |-> sent[k][2]] = IF n \in Withheld(st) THEN << >> ELSE Values(store, n)
SEmit == Len(hist) = MaxOps => Out([h |-> hist])

(* -------------------------------- judge ----------------------------------- *)
(* o = [ops : seq of [k, n, v, c (per value: "text" known text, "free" any clean text), refused], status, out : seq of [n, v],
        sent (FALSE: the server got an error page instead), own (framework fields to be ignored), types]                  *)
Clean(u) == \A k \in 1..Len(u) : u[k] \in 0..255 \ {CR, LF, NUL}
(* known up to the values the statement gives no text for: an empty pattern entry matches every clean value *)
Must(op) == op.k # "del" /\ op.k # "clear" /\ (\E k \in 1..Len(op.v) : Splits(op.v[k]))
May(op) == \/ op.k \notin {"del", "clear"} /\ (\E k \in 1..Len(op.v) : Odd(op.v[k]) \/ op.c[k] = "free")
           \/ op.k \notin {"clear"} /\ ~Token(op.n)
Marked(op) == [op EXCEPT !.v = [k \in 1..Len(op.v) |-> <<op.c[k], op.v[k]>>]]
Final(ops) == FoldLeft(LAMBDA s, op : IF op.refused THEN s ELSE Step(s, Marked(op)), << >>, ops)
MatchLine(u, want) == IF want[1] = "free" THEN Clean(u) ELSE u = Wire(want[2])
Why(o) ==
  LET fin == Final(o.ops)
      lines == [k \in 1..Len(o.out) |-> [n |-> Lower(o.out[k].n), v |-> o.out[k].v]]
      own(n) == \E k \in 1..Len(o.own) : o.own[k] = n
      mine(n) == SelectSeq(lines, LAMBDA l : l.n = n) IN
  FirstFail(<< 
    <<o.types, "not-native-strings">>,
    <<\A k \in 1..Len(o.ops) : Must(o.ops[k]) => o.ops[k].refused, "splitting-value-accepted">>,
    <<\A k \in 1..Len(o.ops) : o.ops[k].refused => Must(o.ops[k]) \/ May(o.ops[k]), "plain-value-refused">>,
    <<\A k \in 1..Len(lines) : Clean(lines[k].v) /\ Clean(lines[k].n), "header-list-splits-the-response">>,
    <<o.sent \/ \E e \in 1..Len(fin) : \E k \in 1..Len(fin[e].v) : fin[e].v[k][1] = "free" \/ NoWire(fin[e].v[k][2]), "no-response">>,
    <<o.sent => \A k \in 1..Len(lines) : lines[k].n \notin Withheld(o.status), "forbidden-header-sent">>,
    <<o.sent => \A e \in 1..Len(fin) : fin[e].n \in Withheld(o.status) \/ Len(mine(fin[e].n)) = Len(fin[e].v) \/ (own(fin[e].n) /\ fin[e].n = SetCookie), "not-once-per-value">>,
    <<o.sent => \A e \in 1..Len(fin) : fin[e].n \in Withheld(o.status) \/ \A k \in 1..Min2(Len(fin[e].v), Len(mine(fin[e].n))) :
         MatchLine(mine(fin[e].n)[k].v, fin[e].v[k]), "another-value-sent">>,
    <<o.sent => \A k \in 1..Len(lines) : At(fin, lines[k].n) > 0 \/ own(lines[k].n), "header-nobody-set">>,
    <<o.sent => \A k \in 1..Len(o.own) : At(fin, o.own[k]) > 0 \/ Len(mine(o.own[k])) <= 1 \/ o.own[k] = SetCookie, "framework-header-twice">>
  >>)
JInit == val = << >> /\ i = 1 /\ store = << >> /\ hist = << >>
JNext == i < Len(In) /\ i' = i + 1 /\ UNCHANGED <<val, store, hist>>
JEmit == Out([i |-> i, why |-> Why(In[i])])
=============================================================================

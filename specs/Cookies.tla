------------------------------ MODULE Cookies -------------------------------
(* C15: cookies.
   1. Wire.  A value travels as name=coded in Set-Cookie, the browser keeps name and coded value and sends them back.
      Code/Uncode is one way of coding; whatever coding the code under test uses, the browser of this module
      decides what comes back.
   2. Jar.  Responses set and delete cookies, the browser keeps them, the next request returns them.
   3. Forgery.  A signed cookie is a string of blocks; an attacker who holds honest cookies edits blocks.  A payload is
      deserialised only if the whole string is an honest signature under the reader's secret.                    *)
EXTENDS VF

(* -------------------------------- 1. wire --------------------------------- *)
SEMI == 59  EQ == 61  DQ == 34  BSL == 92  SP == 32  TAB == 9
Utf8(c) == IF c < 128 THEN <<c>> ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Utf8Text(t) == FoldLeft(LAMBDA a, c : a \o Utf8(c), << >>, t)
Control(c) == c < 32 \/ c = 127
Token(c) == c \in 48..57 \/ c \in 65..90 \/ c \in 97..122 \/ c \in {33, 35, 36, 37, 38, 39, 42, 43, 45, 46, 94, 95, 96, 124, 126}
Octal(b) == <<BSL, 48 + (b \div 64), 48 + ((b \div 8) % 8), 48 + (b % 8)>>
Code(v) == LET b == Utf8Text(v) IN
           IF b # << >> /\ \A k \in 1..Len(b) : Token(b[k]) THEN b
           ELSE <<DQ>> \o FoldLeft(LAMBDA a, c : a \o (IF Token(c) \/ c = SP THEN <<c>> ELSE IF c \in {DQ, BSL} THEN <<BSL, c>> ELSE Octal(c)), << >>, b) \o <<DQ>>
OctDigit(c) == c \in 48..55
RECURSIVE Plain(_)
Plain(s) == IF s = << >> THEN << >>
            ELSE IF s[1] = BSL /\ Len(s) >= 4 /\ s[2] \in 48..51 /\ OctDigit(s[3]) /\ OctDigit(s[4])
                 THEN <<(s[2] - 48) * 64 + (s[3] - 48) * 8 + (s[4] - 48)>> \o Plain(Drop(s, 4))
            ELSE IF s[1] = BSL /\ Len(s) >= 2 THEN <<s[2]>> \o Plain(Drop(s, 2))
            ELSE <<s[1]>> \o Plain(Tail(s))
Uncode(s) == IF Len(s) >= 2 /\ s[1] = DQ /\ s[Len(s)] = DQ THEN Plain(Sub(s, 2, Len(s) - 1)) ELSE s
(* the browser: RFC 6265, section 5.2 *)
Ws(c) == c = SP \/ c = TAB
RECURSIVE LTrim(_), RTrim(_)
LTrim(s) == IF s # << >> /\ Ws(s[1]) THEN LTrim(Tail(s)) ELSE s
RTrim(s) == IF s # << >> /\ Ws(s[Len(s)]) THEN RTrim(Take(s, Len(s) - 1)) ELSE s
Trim(s) == RTrim(LTrim(s))
Find(s, c) == IF \E k \in 1..Len(s) : s[k] = c THEN CHOOSE k \in 1..Len(s) : s[k] = c /\ \A j \in 1..(k - 1) : s[j] # c ELSE 0
Upto(s, c) == LET k == Find(s, c) IN IF k = 0 THEN s ELSE Take(s, k - 1)
Browser(sc) == LET p == Upto(sc, SEMI)  k == Find(p, EQ) IN
               IF k = 0 THEN << << >>, Trim(p)>> ELSE <<Trim(Take(p, k - 1)), Trim(Drop(p, k))>>

VARIABLES val, i, jar, hist, pending, str, ops
vars == <<val, i, jar, hist, pending, str, ops>>
Alphabet == {97, 48, SEMI, 44, DQ, BSL, SP, EQ, 36, 58, 37, 233, 8364, 128512, 10, 0, 127, 133, 9}
MaxLen == EnvInt("MAXLEN")
None == UNCHANGED <<i, jar, hist, pending, str, ops>>
WInit == val = << >> /\ i = 0 /\ jar = << >> /\ hist = << >> /\ pending = << >> /\ str = << >> /\ ops = << >>
WNext == Len(val) < MaxLen /\ \E c \in Alphabet : val' = Append(val, c) /\ None
RoundTrip == LET name == <<110>>
                 b == Browser(name \o <<EQ>> \o Code(val) \o <<SEMI, SP, 80, 97, 116, 104, EQ, 47>>)
             IN b[1] = name /\ Uncode(b[2]) = Utf8Text(val) /\ \A k \in 1..Len(b[2]) : b[2][k] \in 32..126 \ {SEMI}
WEmit == Out([v |-> val, ctl |-> \E k \in 1..Len(val) : Control(val[k])])

(* -------------------------------- 2. jar ---------------------------------- *)
Names == {"a", "b"}
Vals == {"v1", "v2"}
Carriers == {"plain", "returned", "raised", "redirect", "error"}
MaxOps == EnvInt("MAXOPS")
MaxResp == EnvInt("MAXRESP")
Op == [k : {"set"}, n : Names, v : Vals] \cup [k : {"sign"}, n : Names, v : {"v1"}] \cup [k : {"del"}, n : Names, v : {"-"}]
(* pending: the cookies of the response being built; a later call for a name replaces the earlier one *)
Apply(p, op) == SelectSeq(p, LAMBDA x : x.n # op.n) \o <<op>>
Keep(j, p) == [n \in Names |-> LET mine == SelectSeq(p, LAMBDA x : x.n = n) IN
                 IF mine = << >> THEN j[n] ELSE IF mine[1].k = "del" THEN "absent" ELSE IF mine[1].k = "sign" THEN "signed" ELSE mine[1].v]
JarInit == val = << >> /\ i = 0 /\ jar = << [n \in Names |-> "absent"] >> /\ hist = << >> /\ pending = << >> /\ str = << >> /\ ops = << >>
JarNext == /\ Len(hist) < MaxResp /\ UNCHANGED <<val, i, str>>
           /\ \/ Len(ops) < MaxOps /\ \E op \in Op : pending' = Apply(pending, op) /\ ops' = Append(ops, op) /\ UNCHANGED <<jar, hist>>
              \/ \E c \in Carriers : /\ hist' = Append(hist, [ops |-> ops, c |-> c])
                                     /\ jar' = Append(jar, Keep(jar[Len(jar)], pending)) /\ pending' = << >> /\ ops' = << >>
OnePerName == \A x, y \in 1..Len(pending) : pending[x].n = pending[y].n => x = y
LastWins == \A n \in Names : LET mine == SelectSeq(ops, LAMBDA x : x.n = n) IN mine # << >> => \E k \in 1..Len(pending) : pending[k] = mine[Len(mine)]
JarEmit == hist # << >> /\ ops = << >> => Out([h |-> hist, j |-> jar])

(* ------------------------------ 3. forgery -------------------------------- *)
(* blocks: "!", "?", signature blocks <<"s", secret, payload, k>>, payload blocks <<"p", payload, k>>, junk *)
Payloads == {1, 2, 3}       \* 1: (name a, value 1)   2: (name b, value 2)   3: the attacker's own object
Secrets == {1, 2}
Sig(sec, pay) == [k \in 1..3 |-> <<"s", sec, pay, k>>]
Pay(p) == [k \in 1..3 |-> <<"p", p, k>>]
BANG == <<"!">>  QM == <<"?">>  JUNK == <<"junk">>
Signed(sec, p) == <<BANG>> \o Sig(sec, p) \o <<QM>> \o Pay(p)
Honest == {<<1, 1>>, <<1, 2>>, <<2, 1>>}                       \* what servers ever signed: the attacker holds all of it
Loot == UNION {Range(Signed(x[1], x[2])) : x \in Honest} \cup Range(Pay(3)) \cup {JUNK}
MaxEdits == EnvInt("MAXEDITS")
FInit == val = << >> /\ i = 0 /\ jar = << >> /\ hist = << >> /\ pending = << >> /\ str \in {Signed(x[1], x[2]) : x \in Honest} /\ ops = << [k |-> "start", p |-> 0, b |-> str] >>
Edit(k, p, b, s) == CASE k = "sub" -> [s EXCEPT ![p] = b[1]]
                      [] k = "del" -> Take(s, p - 1) \o Drop(s, p)
                      [] k = "ins" -> Take(s, p - 1) \o b \o Drop(s, p - 1)
                      [] k = "cut" -> Take(s, p)
                      [] k = "pay" -> Take(s, Find(s, QM)) \o b
                      [] k = "sig" -> <<BANG>> \o b \o Drop(s, Find(s, QM) - 1)
EditSet(s) == [k : {"sub"}, p : 1..Len(s), b : {<<x>> : x \in Loot}] \cup [k : {"del"}, p : 1..Len(s), b : {<< >>}] \cup [k : {"ins"}, p : 1..(Len(s) + 1), b : {<<x>> : x \in Loot}]
           \cup [k : {"cut"}, p : 0..(Len(s) - 1), b : {<< >>}]
           \cup (IF Find(s, QM) = 0 THEN {} ELSE [k : {"pay"}, p : {0}, b : {Pay(q) : q \in Payloads}] \cup [k : {"sig"}, p : {0}, b : {Sig(x[1], x[2]) : x \in Honest} \cup { << >> }])
FNext == Len(ops) <= MaxEdits /\ \E e \in EditSet(str) : str' = Edit(e.k, e.p, e.b, str) /\ ops' = Append(ops, e) /\ UNCHANGED <<val, i, jar, hist, pending>>
(* the reader splits at the first question mark and compares the signature of what follows; Sig is one-to-one *)
MacOf(sec, body) == [k \in 1..3 |-> <<"s", sec, body, k>>]
Opens(sec, s) == LET k == Find(s, QM) IN
   /\ s # << >> /\ s[1] = BANG /\ k > 0
   /\ \E p \in Payloads : Drop(s, k) = Pay(p) /\ Sub(s, 2, k - 1) = Sig(sec, p)
NoForgery == \A sec \in Secrets : Opens(sec, str) => \E x \in Honest : x[1] = sec /\ str = Signed(x[1], x[2])
(* honest cookies are the only fixed points: an edit that changed the string closes it, unless it made another honest one *)
FEmit == Out([ops |-> ops, open |-> {sec \in Secrets : Opens(sec, str)}, pay |-> IF \E x \in Honest : str = Signed(x[1], x[2])
              THEN (CHOOSE x \in Honest : str = Signed(x[1], x[2]))[2] ELSE 0])

(* -------------------------------- judge ----------------------------------- *)
(* o = [name, value, sc (Set-Cookie value received), sent (what the harness sent back as <<name, coded>>), got (text read), found, raised] *)
Why(o) ==
  LET b == Browser(o.sc) IN
  IF b # o.sent THEN "MACHINERY:other-browser"
  ELSE IF b[1] # o.name THEN "cookie-under-another-name"
  ELSE IF \E k \in 1..Len(o.sc) : Control(o.sc[k]) \/ o.sc[k] > 255 THEN "not-wire-safe"
  ELSE IF o.raised THEN "reading-raised"
  ELSE IF ~o.found THEN "read-as-absent"
  ELSE IF o.got # o.value THEN "read-as-another-value" ELSE ""
JInit == val = << >> /\ i = 1 /\ jar = << >> /\ hist = << >> /\ pending = << >> /\ str = << >> /\ ops = << >>
JNext == i < Len(In) /\ i' = i + 1 /\ UNCHANGED <<val, jar, hist, pending, str, ops>>
JEmit == Out([i |-> i, why |-> Why(In[i])])
=============================================================================

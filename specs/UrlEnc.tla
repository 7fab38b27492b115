------------------------------- MODULE UrlEnc -------------------------------
(* C18: application/x-www-form-urlencoded.  Text is a sequence of code points; a raw string is one too.
     Encode(pairs, style)  every way a sender may write the pairs down
     Run(raw)              the receiver, one character at a time
   A raw string is `exact` when it is the encoding of some pairs with non-empty keys: then the parse is decided.
   Any other string only has to be parsed without raising.                                                    *)
EXTENDS VF

AMP == 38  EQ == 61  PLUS == 43  PCT == 37  SP == 32

(* ------------------------------- UTF-8 ----------------------------------- *)
Utf8(c) == IF c < 128 THEN <<c>>
           ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Utf8Text(t) == FoldLeft(LAMBDA a, c : a \o Utf8(c), << >>, t)

(* the decoder: [need, lo, hi, acc] describes the unfinished sequence, ok turns FALSE for good *)
U0 == [need |-> 0, lo |-> 128, hi |-> 191, acc |-> 0, ok |-> TRUE]
UStart(b) ==
  IF b < 128 THEN [U0 EXCEPT !.acc = b]
  ELSE IF b \in 194..223 THEN [U0 EXCEPT !.need = 1, !.acc = b - 192]
  ELSE IF b \in 224..239 THEN [U0 EXCEPT !.need = 2, !.acc = b - 224, !.lo = IF b = 224 THEN 160 ELSE 128, !.hi = IF b = 237 THEN 159 ELSE 191]
  ELSE IF b \in 240..244 THEN [U0 EXCEPT !.need = 3, !.acc = b - 240, !.lo = IF b = 240 THEN 144 ELSE 128, !.hi = IF b = 244 THEN 143 ELSE 191]
  ELSE [U0 EXCEPT !.ok = FALSE]
UNext(u, b) == IF b \in u.lo..u.hi THEN [u EXCEPT !.need = @ - 1, !.acc = @ * 64 + (b - 128), !.lo = 128, !.hi = 191] ELSE [u EXCEPT !.ok = FALSE]

(* ------------------------------ receiver --------------------------------- *)
HexVal(b) == IF b \in 48..57 THEN b - 48 ELSE IF b \in 65..70 THEN b - 55 ELSE IF b \in 97..102 THEN b - 87 ELSE -1

Start == [side |-> "key", key |-> << >>, val |-> << >>, esc |-> << >>, u |-> U0, pairs |-> << >>, exact |-> TRUE, n |-> 0]
Bad(st) == [st EXCEPT !.exact = FALSE]
Put(st, c) == IF st.side = "key" THEN [st EXCEPT !.key = Append(@, c)] ELSE [st EXCEPT !.val = Append(@, c)]
Clean(st) == st.esc = << >> /\ st.u.need = 0
(* one decoded byte of an escape *)
Byte(st, b) ==
  LET u == IF st.u.need = 0 THEN UStart(b) ELSE UNext(st.u, b) IN
  IF ~u.ok THEN Bad(st)
  ELSE IF u.need = 0 THEN [Put(st, u.acc) EXCEPT !.u = U0] ELSE [st EXCEPT !.u = u]
EndPair(st) ==
  IF ~Clean(st) \/ st.key = << >> THEN Bad(st)
  ELSE [st EXCEPT !.pairs = Append(@, <<st.key, st.val>>), !.key = << >>, !.val = << >>, !.side = "key"]
Step(st0, c) ==
  IF ~st0.exact THEN st0 ELSE LET st == [st0 EXCEPT !.n = @ + 1] IN
  IF st.esc # << >> THEN
     IF HexVal(c) < 0 THEN Bad(st)
     ELSE IF Len(st.esc) = 1 THEN [st EXCEPT !.esc = <<PCT, HexVal(c)>>]
     ELSE Byte([st EXCEPT !.esc = << >>], st.esc[2] * 16 + HexVal(c))
  ELSE IF c = PCT THEN [st EXCEPT !.esc = <<PCT>>]
  ELSE IF st.u.need # 0 THEN Bad(st)
  ELSE IF c = AMP THEN EndPair(st)
  ELSE IF c = EQ /\ st.side = "key" THEN IF st.key = << >> THEN Bad(st) ELSE [st EXCEPT !.side = "val"]
  ELSE IF c = PLUS THEN Put(st, SP)
  ELSE IF c \in 33..126 THEN Put(st, c)
  ELSE Bad(st)                                   \* an encoder escapes everything else
Finish(st) == IF ~st.exact THEN st ELSE IF st.n = 0 THEN st ELSE EndPair(st)
Run(raw) == FoldLeft(Step, Start, raw)
Parse(raw) == Finish(Run(raw))

(* repeated keys become a list, in order of submission *)
Keys(ps) == {ps[k][1] : k \in 1..Len(ps)}
Values(ps, key) == FoldLeft(LAMBDA a, p : IF p[1] = key THEN Append(a, p[2]) ELSE a, << >>, ps)
Group(ps) == {<<key, Values(ps, key)>> : key \in Keys(ps)}

(* -------------------------------- sender --------------------------------- *)
Hex(up, d) == IF d < 10 THEN 48 + d ELSE IF up THEN 55 + d ELSE 87 + d
EscByte(up, b) == <<PCT, Hex(up, b \div 16), Hex(up, b % 16)>>
Escape(up, c) == FoldLeft(LAMBDA a, b : a \o EscByte(up, b), << >>, Utf8(c))
Unreserved(c) == c \in 48..57 \/ c \in 65..90 \/ c \in 97..122 \/ c \in {45, 46, 95, 126}
(* styles: 1 form encoding ('+' for a space, upper case)   2 percent encoding only, lower case
           3 everything escaped                            4 as little as possible escaped       *)
EncChar(style, side, c) ==
  CASE style = 1 -> IF c = SP THEN <<PLUS>> ELSE IF Unreserved(c) THEN <<c>> ELSE Escape(TRUE, c)
    [] style = 2 -> IF Unreserved(c) THEN <<c>> ELSE Escape(FALSE, c)
    [] style = 3 -> Escape(TRUE, c)
    [] style = 4 -> IF c = SP THEN <<PLUS>>
                    ELSE IF c \in 33..126 /\ c \notin {AMP, PLUS, PCT} /\ ~(c = EQ /\ side = "key") THEN <<c>> ELSE Escape(FALSE, c)
EncText(style, side, t) == FoldLeft(LAMBDA a, c : a \o EncChar(style, side, c), << >>, t)
EncPair(style, p) == EncText(style, "key", p[1]) \o (IF style = 4 /\ p[2] = << >> THEN << >> ELSE <<EQ>>) \o EncText(style, "val", p[2])
Encode(ps, style) == FoldLeft(LAMBDA a, p : IF a = << >> THEN EncPair(style, p) ELSE a \o <<AMP>> \o EncPair(style, p), << >>, ps)

(* --------------------- generation: pairs and raw strings ------------------ *)
VARIABLES ps, style, raw, st, i
vars == <<ps, style, raw, st, i>>
Wide == {97, EQ, AMP, PLUS, PCT, SP, 52, 233, 8364, 128512, 0, 10}
Mid == {97, EQ, AMP, PLUS, PCT, SP, 233}
Few == {97, AMP, 8364}
Mode == IOEnv.MODE
Texts(A, lo, n) == (IF lo = 0 THEN {<< >>} ELSE {}) \cup {<<c>> : c \in A} \cup (IF n > 1 THEN {<<c, d>> : c \in A, d \in A} ELSE {})
Pairs == CASE Mode = "one" -> {<<k, v>> : k \in Texts(Mid, 1, 2), v \in Texts(Mid, 0, 2)}
           [] Mode = "two" -> {<<k, v>> : k \in Texts(Wide \ {52, 0}, 1, 1), v \in Texts(Wide \ {52, 0}, 0, 1)}
           [] Mode = "few" -> {<<k, v>> : k \in Texts(Few, 1, 1), v \in Texts(Few, 0, 1)}
           [] Mode = "wide" -> {<<k, v>> : k \in Texts(Wide, 1, 2), v \in Texts(Wide, 0, 2)}
           [] OTHER -> {}
MaxPairs == EnvInt("MAXPAIRS")
PInit == ps = << >> /\ style \in 1..4 /\ raw = << >> /\ st = Start /\ i = 0
PNext == /\ Len(ps) < MaxPairs
         /\ \E p \in Pairs : ps' = Append(ps, p)
         /\ raw' = Encode(ps', style) /\ st' = Run(raw') /\ UNCHANGED <<style, i>>
(* decoding what was encoded gives the pairs back, whatever the style *)
RoundTrip == LET r == Finish(st) IN r.exact /\ r.pairs = ps
(* an encoding never contains a character that needs escaping *)
Plain == \A k \in 1..Len(raw) : raw[k] \in 33..126
PEmit == ps # << >> => Out([s |-> raw, p |-> ps])

Alphabet == {97, EQ, AMP, PCT, PLUS, 52, 233}
MaxLen == EnvInt("MAXLEN")
RInit == ps = << >> /\ style = 1 /\ raw = << >> /\ st = Start /\ i = 0
RNext == /\ Len(raw) < MaxLen
         /\ \E c \in Alphabet : raw' = Append(raw, c) /\ st' = Step(st, c)
         /\ UNCHANGED <<ps, style, i>>
REmit == LET r == Finish(st) IN Out([s |-> raw, e |-> r.exact, p |-> IF r.exact THEN r.pairs ELSE << >>])
(* what is exact here can be written by a sender: encode the parse again and parse it *)
Sound == LET r == Finish(st) IN r.exact => \A k \in 1..4 : Parse(Encode(r.pairs, k)).pairs = r.pairs

(* -------------------------------- judge ---------------------------------- *)
(* o = [raw, pairs (what the sender meant, for an encoding), enc (TRUE when raw is an encoding),
        raised (what parsing raised, "" if nothing), got = << <<key, values, is a list>> >>]      *)
Got(o) == {<<o.got[k][1], o.got[k][2]>> : k \in 1..Len(o.got)}
Why(o) ==
  LET r == Parse(o.raw) IN
  IF o.raised # "" THEN "parsing-raised"
  ELSE IF o.enc /\ ~(r.exact /\ r.pairs = o.pairs) THEN "MACHINERY:not-an-encoding"
  ELSE IF ~r.exact THEN ""
  ELSE IF Got(o) # Group(r.pairs) THEN "other-pairs"
  ELSE IF \E k \in 1..Len(o.got) : o.got[k][3] # (Len(o.got[k][2]) > 1) THEN "list-or-string"
  ELSE ""
JInit == ps = << >> /\ style = 1 /\ raw = << >> /\ st = Start /\ i = 1
JNext == i < Len(In) /\ i' = i + 1 /\ UNCHANGED <<ps, style, raw, st>>
JEmit == Out([i |-> i, why |-> Why(In[i])])
=============================================================================

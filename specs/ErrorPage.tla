------------------------------ MODULE ErrorPage ------------------------------
(* C20: error pages.
   1. Inert.  A page is a template with text inserted into it.  A browser reads it with the machine Html; escaped text keeps
      that machine in the state it was in, wherever it is inserted, and the reader sees the original text.
   2. Json.  A push-down machine that accepts exactly JSON documents; text inserted as a JSON string keeps it accepting.
   3. Judge.  Recorded pages are run through the same machines.                                                     *)
EXTENDS VF

LT == 60  GT == 62  AMP == 38  DQ == 34  SQ == 39  HASH == 35  SEMI == 59  BSL == 92  OPEN == 123  CLOSE == 125
Special == {LT, GT, AMP, DQ, SQ}

(* --------------------------- the browser's machine --------------------------- *)
(* out: every character of markup, without the content of quoted attribute values; ANY "<" counts as markup *)
HtmlStep(a, c) ==
  IF a.st = "text" THEN (IF c = LT THEN [st |-> "tag", out |-> Append(a.out, c)] ELSE a)
  ELSE IF a.st = "tag" THEN (IF c = GT THEN [st |-> "text", out |-> Append(a.out, c)]
                             ELSE IF c = DQ THEN [st |-> "dq", out |-> Append(a.out, c)]
                             ELSE IF c = SQ THEN [st |-> "sq", out |-> Append(a.out, c)]
                             ELSE [a EXCEPT !.out = Append(@, c)])
  ELSE IF a.st = "dq" THEN (IF c = DQ THEN [st |-> "tag", out |-> Append(a.out, c)] ELSE a)
  ELSE (IF c = SQ THEN [st |-> "tag", out |-> Append(a.out, c)] ELSE a)
Html(s, st) == FoldLeft(HtmlStep, [st |-> st, out |-> << >>], s)
Skeleton(s) == Html(s, "text").out
Ref(c) == CASE c = LT -> <<AMP, 108, 116, SEMI>> [] c = GT -> <<AMP, 103, 116, SEMI>> [] c = AMP -> <<AMP, 97, 109, 112, SEMI>>
            [] c = DQ -> <<AMP, 113, 117, 111, 116, SEMI>> [] OTHER -> <<AMP, HASH, 51, 57, SEMI>>
Esc(t) == FoldLeft(LAMBDA a, c : a \o (IF c \in Special THEN Ref(c) ELSE <<c>>), << >>, t)
(* reading: character references and everything else *)
Named == << [n |-> <<97, 109, 112>>, c |-> AMP], [n |-> <<108, 116>>, c |-> LT], [n |-> <<103, 116>>, c |-> GT], [n |-> <<113, 117, 111, 116>>, c |-> DQ], [n |-> <<97, 112, 111, 115>>, c |-> SQ] >>
Digit(c) == c \in 48..57
Hex(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE -1
RefValue(n) == IF n # << >> /\ n[1] = HASH
               THEN (IF Len(n) > 2 /\ n[2] \in {120, 88} THEN (IF \A k \in 3..Len(n) : Hex(n[k]) >= 0 THEN FoldLeft(LAMBDA a, c : a * 16 + Hex(c), 0, Drop(n, 2)) ELSE -1)
                     ELSE IF Len(n) > 1 /\ (\A k \in 2..Len(n) : Digit(n[k])) THEN FoldLeft(LAMBDA a, c : a * 10 + (c - 48), 0, Tail(n)) ELSE -1)
               ELSE IF \E k \in 1..Len(Named) : Named[k].n = n THEN Named[CHOOSE k \in 1..Len(Named) : Named[k].n = n].c ELSE -1
(* acc: out (text read so far), ref (inside a reference: its characters), bad *)
ReadStep(a, c) ==
  IF a.in THEN (IF c = SEMI THEN (IF RefValue(a.ref) >= 0 THEN [in |-> FALSE, ref |-> << >>, out |-> Append(a.out, RefValue(a.ref)), bad |-> a.bad]
                                  ELSE [in |-> FALSE, ref |-> << >>, out |-> a.out, bad |-> TRUE])
                ELSE IF Len(a.ref) > 8 \/ c = AMP THEN [a EXCEPT !.bad = TRUE] ELSE [a EXCEPT !.ref = Append(@, c)])
  ELSE IF c = AMP THEN [a EXCEPT !.in = TRUE]
  ELSE IF c \in Special THEN [a EXCEPT !.bad = TRUE, !.out = Append(@, c)]
  ELSE [a EXCEPT !.out = Append(@, c)]
Reader(s) == LET a == FoldLeft(ReadStep, [in |-> FALSE, ref |-> << >>, out |-> << >>, bad |-> FALSE], s) IN [a EXCEPT !.bad = @ \/ a.in]

(* ------------------------------- the JSON machine ---------------------------- *)
(* st: what comes next; sk: open containers ("o" object, "a" array); a number may end at any character that is not part of it *)
Ws(c) == c \in {32, 9, 10, 13}
Lit == [t |-> <<114, 117, 101>>, f |-> <<97, 108, 115, 101>>, n |-> <<117, 108, 108>>]
Done(a) == [a EXCEPT !.st = "after"]
Value(a, c) == IF c = DQ THEN [a EXCEPT !.st = "str", !.key = FALSE]
               ELSE IF c = OPEN THEN [a EXCEPT !.st = "key1", !.sk = Append(@, "o")]
               ELSE IF c = 91 THEN [a EXCEPT !.st = "val1", !.sk = Append(@, "a")]
               ELSE IF c = 116 THEN [a EXCEPT !.st = "lit", !.left = Lit.t]
               ELSE IF c = 102 THEN [a EXCEPT !.st = "lit", !.left = Lit.f]
               ELSE IF c = 110 THEN [a EXCEPT !.st = "lit", !.left = Lit.n]
               ELSE IF c = 45 THEN [a EXCEPT !.st = "neg"]
               ELSE IF c = 48 THEN [a EXCEPT !.st = "zero"]
               ELSE IF Digit(c) THEN [a EXCEPT !.st = "int"] ELSE [a EXCEPT !.st = "no"]
After(a, c) == IF Ws(c) THEN Done(a)
               ELSE IF a.sk = << >> THEN [a EXCEPT !.st = "no"]
               ELSE LET top == a.sk[Len(a.sk)] IN
                    IF c = 44 THEN [a EXCEPT !.st = IF top = "o" THEN "key" ELSE "val"]
                    ELSE IF (c = CLOSE /\ top = "o") \/ (c = 93 /\ top = "a") THEN [a EXCEPT !.st = "after", !.sk = Take(@, Len(@) - 1)]
                    ELSE [a EXCEPT !.st = "no"]
JsonStep(a, c) ==
  IF a.st = "no" THEN a
  ELSE IF a.st = "str" THEN (IF c = BSL THEN [a EXCEPT !.st = "esc"] ELSE IF c = DQ THEN [a EXCEPT !.st = IF a.key THEN "colon" ELSE "after"]
                             ELSE IF c < 32 THEN [a EXCEPT !.st = "no"] ELSE a)
  ELSE IF a.st = "esc" THEN (IF c = 117 THEN [a EXCEPT !.st = "u", !.n = 4] ELSE IF c \in {DQ, BSL, 47, 98, 102, 110, 114, 116} THEN [a EXCEPT !.st = "str"] ELSE [a EXCEPT !.st = "no"])
  ELSE IF a.st = "u" THEN (IF Hex(c) < 0 THEN [a EXCEPT !.st = "no"] ELSE IF a.n = 1 THEN [a EXCEPT !.st = "str", !.n = 0] ELSE [a EXCEPT !.n = @ - 1])
  ELSE IF a.st = "lit" THEN (IF c # a.left[1] THEN [a EXCEPT !.st = "no"] ELSE IF Len(a.left) = 1 THEN [a EXCEPT !.st = "after", !.left = << >>] ELSE [a EXCEPT !.left = Tail(@)])
  ELSE IF a.st = "neg" THEN (IF c = 48 THEN [a EXCEPT !.st = "zero"] ELSE IF Digit(c) THEN [a EXCEPT !.st = "int"] ELSE [a EXCEPT !.st = "no"])
  ELSE IF a.st = "int" /\ Digit(c) THEN a
  ELSE IF a.st \in {"int", "zero"} THEN (IF c = 46 THEN [a EXCEPT !.st = "dot"] ELSE IF c \in {101, 69} THEN [a EXCEPT !.st = "exp"] ELSE After(a, c))
  ELSE IF a.st = "dot" THEN (IF Digit(c) THEN [a EXCEPT !.st = "frac"] ELSE [a EXCEPT !.st = "no"])
  ELSE IF a.st = "frac" THEN (IF Digit(c) THEN a ELSE IF c \in {101, 69} THEN [a EXCEPT !.st = "exp"] ELSE After(a, c))
  ELSE IF a.st = "exp" THEN (IF c \in {43, 45} THEN [a EXCEPT !.st = "sign"] ELSE IF Digit(c) THEN [a EXCEPT !.st = "pow"] ELSE [a EXCEPT !.st = "no"])
  ELSE IF a.st = "sign" THEN (IF Digit(c) THEN [a EXCEPT !.st = "pow"] ELSE [a EXCEPT !.st = "no"])
  ELSE IF a.st = "pow" THEN (IF Digit(c) THEN a ELSE After(a, c))
  ELSE IF a.st = "after" THEN After(a, c)
  ELSE IF Ws(c) THEN a
  ELSE IF a.st = "colon" THEN (IF c = 58 THEN [a EXCEPT !.st = "val"] ELSE [a EXCEPT !.st = "no"])
  ELSE IF a.st = "key1" /\ c = CLOSE THEN [a EXCEPT !.st = "after", !.sk = Take(@, Len(@) - 1)]
  ELSE IF a.st \in {"key", "key1"} THEN (IF c = DQ THEN [a EXCEPT !.st = "str", !.key = TRUE] ELSE [a EXCEPT !.st = "no"])
  ELSE IF a.st = "val1" /\ c = 93 THEN [a EXCEPT !.st = "after", !.sk = Take(@, Len(@) - 1)]
  ELSE Value(a, c)
JsonRun(s) == FoldLeft(JsonStep, [st |-> "val", sk |-> << >>, key |-> FALSE, left |-> << >>, n |-> 0], s)
IsJson(s) == LET a == JsonRun(s) IN a.sk = << >> /\ a.st \in {"after", "zero", "int", "frac", "pow"}
JsonStr(t) == <<DQ>> \o FoldLeft(LAMBDA a, c : a \o (IF c = DQ \/ c = BSL THEN <<BSL, c>> ELSE IF c < 32 THEN <<BSL, 117, 48, 48, 48 + (c \div 16), IF (c % 16) < 10 THEN 48 + (c % 16) ELSE 87 + (c % 16)>> ELSE <<c>>), << >>, t) \o <<DQ>>

(* --------------------------------- model ------------------------------------- *)
VARIABLES val, i
vars == <<val, i>>
Alphabet == {LT, GT, AMP, DQ, SQ, 47, 97, SEMI, HASH, OPEN, CLOSE, 37, 9, BSL, 33}
MaxLen == EnvInt("MAXLEN")
Init == val = << >> /\ i = 0
Next == Len(val) < MaxLen /\ \E c \in Alphabet : val' = Append(val, c) /\ i' = i
Inert == \A st \in {"text", "dq", "sq"} : Html(Esc(val), st) = [st |-> st, out |-> << >>]
Faithful == ~Reader(Esc(val)).bad /\ Reader(Esc(val)).out = val
(* unescaped text is inert in running text only if it has no "<" *)
Needed == (Html(val, "text").st = "text" /\ Html(val, "text").out = << >>) <=> \A k \in 1..Len(val) : val[k] # LT
Pre == <<OPEN, DQ, 97, DQ, 58, 91, 45, 49, 46, 53, 101, 51, 44>>   Post == <<93, 44, DQ, 98, DQ, 58, 110, 117, 108, 108, CLOSE>>
JsonInert == IsJson(Pre \o JsonStr(val) \o Post)
Emit == Out([t |-> val, lt |-> \E k \in 1..Len(val) : val[k] \in Special])
(* the JSON machine on small documents: agreed with an independent parser by the harness *)
JAlphabet == {OPEN, CLOSE, 91, 93, DQ, 58, 44, 49, 48, 45, 46, 101, BSL, 110, 32}
JModelInit == val = << >> /\ i = 0
JModelNext == Len(val) < MaxLen /\ \E c \in JAlphabet : val' = Append(val, c) /\ i' = i
(* a prefix that is refused stays refused *)
Refused == [][JsonRun(val).st = "no" => JsonRun(val').st = "no"]_vars
JModelEmit == Out([t |-> val, ok |-> IsJson(val)])

(* --------------------------------- judge ------------------------------------- *)
(* o = [json, page, neutral (the page of a harmless request with the same fate), segs : seq of [text (as sent), seen (as in the page)], ctype, nctype] *)
Pct(s, c) == LET h == <<c \div 16, c % 16>> IN
  Cardinality({k \in 1..(Len(s) - 2) : s[k] = 37 /\ Hex(s[k + 1]) = h[1] /\ Hex(s[k + 2]) = h[2]})
CountOf(s, c) == Cardinality({k \in 1..Len(s) : s[k] = c}) + Pct(s, c)
SegWhy(e) == LET r == Reader(e.seen) IN
  IF r.bad THEN "request-text-not-escaped"
  ELSE IF (\A k \in 1..Len(e.text) : e.text[k] # 37) /\ (\E c \in Special \cup {OPEN, CLOSE} : CountOf(r.out, c) # CountOf(e.text, c)) THEN "request-text-shown-wrongly" ELSE ""
Why(o) ==
  IF o.json THEN FirstFail(<< <<IsJson(o.page), "not-json">>, <<o.ctype = "application/json", "json-under-another-type">>,
                              <<\A k \in 1..Len(o.segs) : \A j \in 1..Len(o.segs[k].seen) : o.segs[k].seen[j] \notin {LT, GT}, "request-text-not-escaped">> >>)
  ELSE FirstFail(<< <<Skeleton(o.page) = Skeleton(o.neutral), "markup-injected">>, <<o.ctype = o.nctype, "another-content-type">>,
                    <<\A k \in 1..Len(o.segs) : SegWhy(o.segs[k]) = "", IF \E k \in 1..Len(o.segs) : SegWhy(o.segs[k]) = "request-text-not-escaped"
                                                                     THEN "request-text-not-escaped" ELSE "request-text-shown-wrongly">> >>)
JInit == val = << >> /\ i = 1
JNext == i < Len(In) /\ i' = i + 1 /\ UNCHANGED val
JEmit == Out([i |-> i, why |-> Why(In[i])])
=============================================================================

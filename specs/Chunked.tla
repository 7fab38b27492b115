------------------------------ MODULE Chunked ------------------------------
(* C05: chunked transfer coding as a byte automaton with a three-valued verdict
     accept    - a legal encoding: the body must be exactly `out`
     reject    - cut short before the zero-size chunk line is complete, or chunk
                 data not followed by CRLF: must be a client error
     optional  - lenient framing (overlong size line, odd bytes in an extension,
                 unfinished trailer): exact body or client error
     any       - garbage in a size line: whatever, but acceptance or client error
   A token t >= 0 is a byte; t < 0 stands for a run of -t payload bytes.      *)
EXTENDS VF

CR == 13  LF == 10  SEMI == 59  SP == 32  TAB == 9  COLON == 58
Cap == 100000000

HexVal(b) == IF b \in 48..57 THEN b - 48
             ELSE IF b \in 65..70 THEN b - 55
             ELSE IF b \in 97..102 THEN b - 87 ELSE -1
TokenCh(b) == b \in 48..57 \/ b \in 65..90 \/ b \in 97..122 \/ b = 45
Printable(b) == b \in 32..126 \/ b = TAB

Start == [m |-> "size", acc |-> 0, nd |-> 0, ll |-> 0, rest |-> 0, opt |-> FALSE, line |-> 0,
          colon |-> FALSE, out |-> << >>, n |-> 0]

EndLine(st) ==   \* the size line is complete
  [st EXCEPT !.m = IF st.acc = 0 THEN "tline" ELSE "data", !.rest = st.acc, !.acc = 0, !.nd = 0, !.ll = 0]

Step(buf, st0, b) ==
  IF st0.m \in {"any", "reject"} THEN st0
  ELSE LET inLine == st0.m \in {"size", "bws", "ext", "extcr", "sizecr"}
           st == IF inLine THEN [st0 EXCEPT !.ll = @ + 1, !.opt = @ \/ st0.ll + 1 > buf] ELSE st0
       IN
  CASE st.m = "size" ->
         IF b >= 0 /\ HexVal(b) >= 0 THEN [st EXCEPT !.acc = Min2(@ * 16 + HexVal(b), Cap), !.nd = @ + 1]
         ELSE IF st.nd = 0 THEN [st EXCEPT !.m = "any"]
         ELSE IF b = CR THEN [st EXCEPT !.m = "sizecr"]
         ELSE IF b = SEMI THEN [st EXCEPT !.m = "ext"]
         ELSE IF b \in {SP, TAB} THEN [st EXCEPT !.m = "bws"]
         ELSE [st EXCEPT !.m = "any"]
    [] st.m = "bws" ->
         IF b \in {SP, TAB} THEN st
         ELSE IF b = SEMI THEN [st EXCEPT !.m = "ext"]
         ELSE IF b = CR THEN [st EXCEPT !.m = "sizecr", !.opt = TRUE]
         ELSE [st EXCEPT !.m = "any"]
    [] st.m = "sizecr" -> IF b = LF THEN EndLine(st) ELSE [st EXCEPT !.m = "any"]
    [] st.m = "ext" -> IF b = CR THEN [st EXCEPT !.m = "extcr"]
                       ELSE [st EXCEPT !.opt = @ \/ ~Printable(b)]
    [] st.m = "extcr" -> IF b = LF THEN EndLine(st)
                         ELSE IF b = CR THEN [st EXCEPT !.opt = TRUE]
                         ELSE [st EXCEPT !.m = "ext", !.opt = TRUE]
    [] st.m = "data" ->
         IF b < 0 THEN
              IF -b > st.rest THEN [st EXCEPT !.m = "reject"]
              ELSE [st EXCEPT !.rest = @ + b, !.n = @ - b, !.m = IF st.rest + b = 0 THEN "dcr" ELSE "data"]
         ELSE [st EXCEPT !.rest = @ - 1, !.n = @ + 1, !.out = Append(@, b),
                         !.m = IF st.rest = 1 THEN "dcr" ELSE "data"]
    [] st.m = "dcr" -> IF b = CR THEN [st EXCEPT !.m = "dlf"] ELSE [st EXCEPT !.m = "reject"]
    [] st.m = "dlf" -> IF b = LF THEN [st EXCEPT !.m = "size"] ELSE [st EXCEPT !.m = "reject"]
    (* the zero-size chunk line has been seen: the body is decided *)
    [] st.m = "tline" ->
         IF b = CR THEN [st EXCEPT !.m = "tcr"]
         ELSE IF b = COLON /\ st.line > 0 THEN [st EXCEPT !.line = @ + 1, !.colon = TRUE]
         ELSE [st EXCEPT !.line = @ + 1,
                         !.opt = @ \/ (IF st.colon THEN ~Printable(b) ELSE ~TokenCh(b))]
    [] st.m = "tcr" ->
         IF b = LF THEN IF st.line = 0 THEN [st EXCEPT !.m = "end"]
                        ELSE [st EXCEPT !.m = "tline", !.opt = @ \/ ~st.colon, !.line = 0, !.colon = FALSE]
         ELSE [st EXCEPT !.opt = TRUE, !.m = "tline", !.line = @ + 1]
    [] st.m = "end" -> [st EXCEPT !.opt = TRUE]

Run(buf, s) == FoldLeft(LAMBDA st, b : Step(buf, st, b), Start, s)

Decided(st) == st.m \in {"tline", "tcr", "end"}
Verdict(st) == IF st.m = "any" THEN "any"
               ELSE IF ~Decided(st) THEN "reject"
               ELSE IF st.m = "end" /\ ~st.opt THEN "accept" ELSE "optional"

(* ----------------------- generation: every short string ------------------ *)
VARIABLES s, st, i
vars == <<s, st, i>>

Alphabet == {48, 49, 65, CR, LF, SEMI, 120}
Seeds == { << >>, <<49, CR, LF>>, <<49, CR, LF, 120, CR>>, <<50, 59, 97, CR, LF, CR>>,
           <<49, CR, LF, 120, CR, LF>>, <<48, CR, LF>> }
MaxLen == EnvInt("MAXLEN")
BufSize == EnvInt("BUF")

VARIABLE len
GInit == /\ s \in Seeds /\ st = Run(BufSize, s) /\ i = 0 /\ len = 0
GNext == /\ len < MaxLen
         /\ \E b \in Alphabet : s' = Append(s, b) /\ st' = Step(BufSize, st, b)
         /\ len' = len + 1 /\ UNCHANGED i
GEmit == Out([s |-> s, v |-> Verdict(st), out |-> st.out])

(* --------------------- generation: legal encodings ----------------------- *)
Ch(str) == str   \* readability only
SizeForms == << << <<49>>, 1>>, << <<48, 51>>, 3>>, << <<97>>, 10>>, << <<48, 65>>, 10>> >>
Exts == << << >>, <<SEMI>>, <<SEMI, 97, 61, 34, 98, 34>>, <<SP, SEMI, 113>> >>
Trailers == << << >>, <<84, 58, SP, 118, CR, LF>>, <<84, 58, 118, CR, LF, 85, 45, 49, 58, 119, CR, LF>> >>
Zeros == << <<48>>, <<48, 48, 48>> >>
(* payload bytes: framing look-alikes on purpose *)
Pay(k, n) == [j \in 1..n |-> <<CR, LF, 48, SEMI, 49, CR, LF, 255, 0, 97>>[((j + k) % 10) + 1]]

EncChunk(f, e, p) == f \o e \o <<CR, LF>> \o p \o <<CR, LF>>
Encode(cs, z, e, t) ==
  FoldLeft(LAMBDA acc, c : acc \o EncChunk(SizeForms[c[1]][1], Exts[c[2]], Pay(c[3], SizeForms[c[1]][2])), << >>, cs)
    \o Zeros[z] \o Exts[e] \o <<CR, LF>> \o Trailers[t] \o <<CR, LF>>
Payload(cs) == FoldLeft(LAMBDA acc, c : acc \o Pay(c[3], SizeForms[c[1]][2]), << >>, cs)
HeadLen(cs) == FoldLeft(LAMBDA acc, c : acc + Len(EncChunk(SizeForms[c[1]][1], Exts[c[2]], Pay(c[3], SizeForms[c[1]][2]))), 0, cs)

MaxChunks == EnvInt("MAXCHUNKS")
VARIABLES cs, fin
LVars == <<s, st, i, len, cs, fin>>
LInit == s = << >> /\ st = Start /\ i = 0 /\ len = 0 /\ cs = << >> /\ fin = << >>
LNext ==
  /\ fin = << >> /\ UNCHANGED <<i, len>>
  /\ \/ /\ Len(cs) < MaxChunks
        /\ \E f \in 1..4, e \in 1..4 : cs' = Append(cs, <<f, e, (f * 3 + e + Len(cs) * 7) % 10>>)
        /\ UNCHANGED <<s, st, fin>>
     \/ \E z \in 1..2, e \in 1..4, t \in 1..3 :
          /\ fin' = <<z, e, t>> /\ UNCHANGED cs
          /\ s' = Encode(cs, z, e, t) /\ st' = Run(1000, s')
(* the automaton accepts the legal language exactly, rejects every truncation before the
   zero-size line is complete, and every damaged chunk terminator *)
ZeroLine == Len(Zeros[fin[1]]) + Len(Exts[fin[2]]) + 2
Ends == [k \in 1..Len(cs) |-> HeadLen(Take(cs, k))]
Oracle ==
  fin # << >> =>
    /\ Verdict(st) = "accept" /\ st.out = Payload(cs)
    /\ \A c \in 0..(HeadLen(cs) + ZeroLine - 1) : Verdict(Run(1000, Take(s, c))) = "reject"
    /\ \A k \in 1..Len(cs) : \A off \in {0, 1} :
         LET p == Ends[k] - off IN
         Verdict(Run(1000, Take(s, p - 1) \o <<120>> \o Drop(s, p))) = "reject"
LEmit == fin # << >> => Out([s |-> s, out |-> st.out, zero |-> HeadLen(cs) + ZeroLine, ends |-> Ends])

(* ------------------------------- the judge ------------------------------- *)
(* o = [s, buf, status, body] with small bodies, or [s (with runs), buf, status, n] where n is the
   number of payload bytes delivered if they are a prefix of the generated payload, else -1 *)
Why(o) ==
  LET r == Run(o.buf, o.s)  v == Verdict(r)
      client == o.status \in 400..499
      exact == IF Has(o, "n") THEN o.n = r.n ELSE o.body = r.out
  IN IF ~client /\ o.status # 200 THEN "neither-accepted-nor-client-error"
     ELSE IF v = "accept" /\ client THEN "legal-encoding-rejected"
     ELSE IF v = "reject" /\ ~client THEN "truncated-or-misframed-accepted"
     ELSE IF v \in {"accept", "optional"} /\ ~client /\ ~exact THEN "body-not-exact"
     ELSE ""
JInit == s = << >> /\ st = Start /\ i = 1 /\ len = 0 /\ cs = << >> /\ fin = << >>
JNext == i < Len(In) /\ i' = i + 1 /\ UNCHANGED <<s, st, len, cs, fin>>
JEmit == Out([i |-> i, why |-> Why(In[i]), v |-> Verdict(Run(In[i].buf, In[i].s))])
GInit2 == GInit /\ cs = << >> /\ fin = << >>
GNext2 == GNext /\ UNCHANGED <<cs, fin>>
=============================================================================

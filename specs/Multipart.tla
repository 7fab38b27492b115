----------------------------- MODULE Multipart -----------------------------
(* C06 / C07 / C12: multipart/form-data.

   Parse(body, B)   the declarative meaning of a body (or any prefix of one): the
                    sections found, and whether the body is malformed.  Offsets are
                    0-based, end exclusive, as in the implementation's markup.
   Feed(st, c)      an incremental scanner fed with arbitrary chunks (what the code
                    does); refinement: after any division of the input it has found
                    exactly Parse(input).
   Encode(fields)   the client side of C07.
   Collect(fields)  what the application must see.                              *)
EXTENDS VF

CR == 13  LF == 10  HY == 45
CRLF == <<CR, LF>>
HdrEnd == <<CR, LF, CR, LF>>
Dash(B) == <<HY, HY>> \o B
Delim(B) == CRLF \o Dash(B)

(* smallest j >= p (1-based) where t occurs in s, or 0 *)
Find(s, p, t) ==
  LET C == {j \in p..(Len(s) - Len(t) + 1) : s[j] = t[1] /\ Sub(s, j, j + Len(t) - 1) = t}
  IN IF C = {} THEN 0 ELSE CHOOSE j \in C : \A k \in C : j <= k

Res(secs, err, stop) == [secs |-> secs, err |-> err, stop |-> stop]

(* p: 1-based cursor just behind a delimiter *)
RECURSIVE AfterDelim(_, _, _, _)
AfterDelim(s, B, p, secs) ==
  IF p > Len(s) THEN Res(secs, "", FALSE)
  ELSE IF s[p] = HY THEN
       IF p + 1 > Len(s) THEN Res(secs, "", FALSE)
       ELSE IF s[p + 1] = HY THEN Res(secs, "", TRUE)
       ELSE Res(secs, "bad-end", FALSE)
  ELSE IF s[p] = CR THEN
       IF p + 1 > Len(s) THEN Res(secs, "", FALSE)
       ELSE IF s[p + 1] # LF THEN Res(secs, "bad-start", FALSE)
       ELSE LET h == p + 2  e == Find(s, h, HdrEnd) IN
            IF e = 0 THEN Res(secs, "", FALSE)
            ELSE LET s1 == Append(secs, <<"headers", h - 1, e - 1>>)
                     d == e + 4
                     q == Find(s, d, Delim(B))
                 IN IF q = 0 THEN Res(s1, "", FALSE)
                    ELSE AfterDelim(s, B, q + Len(Delim(B)), Append(s1, <<"data", d - 1, q - 1>>))
  ELSE Res(secs, "bad-start", FALSE)

Parse(s, B) ==
  IF s = << >> THEN Res(<< >>, "", FALSE)
  ELSE IF s[1] \notin {HY, CR} THEN Res(<< >>, "bad-body-start", FALSE)
  ELSE IF StartsAt(s, 1, Dash(B)) THEN AfterDelim(s, B, Len(Dash(B)) + 1, << <<"data", 0, 0>> >>)
  ELSE LET q == Find(s, 1, Delim(B)) IN
       IF q = 0 THEN Res(<< >>, "", FALSE)
       ELSE AfterDelim(s, B, q + Len(Delim(B)), << <<"data", 0, q - 1>> >>)

(* ----------------------- the incremental scanner ------------------------- *)
(* mode: start | first (matching --B at the very beginning) | data | after | cr | hy | head | stop | err
   m: how many bytes of the expected token are matched so far (carried across chunks)             *)
Scan0 == [mode |-> "start", m |-> 0, abs |-> 0, sec |-> 0, secs |-> << >>, err |-> ""]

Byte(st, b, B) ==
  LET D == Delim(B)
      n == st.abs + 1
      s1 == [st EXCEPT !.abs = n]
      InData(x, mm) ==      \* matching CRLF--B; B contains no CR, so a mismatch restarts at most at its own CR
        LET k == IF b = D[mm + 1] THEN mm + 1 ELSE IF b = CR THEN 1 ELSE 0 IN
        IF k = Len(D)
          THEN [x EXCEPT !.mode = "after", !.m = 0,
                         !.secs = Append(@, <<"data", x.sec, n - Len(D)>>)]
          ELSE [x EXCEPT !.mode = "data", !.m = k]
  IN
  CASE st.mode = "stop" \/ st.mode = "err" -> st
    [] st.mode = "start" ->
         IF b = CR THEN InData(s1, 0)
         ELSE IF b = HY THEN [s1 EXCEPT !.mode = "first", !.m = 1]
         ELSE [s1 EXCEPT !.mode = "err", !.err = "bad-body-start"]
    [] st.mode = "first" ->
         IF b = Dash(B)[st.m + 1]
           THEN IF st.m + 1 = Len(Dash(B))
                  THEN [s1 EXCEPT !.mode = "after", !.m = 0, !.secs = << <<"data", 0, 0>> >>]
                  ELSE [s1 EXCEPT !.m = @ + 1]
           ELSE InData(s1, 0)
    [] st.mode = "data" -> InData(s1, st.m)
    [] st.mode = "after" ->
         IF b = CR THEN [s1 EXCEPT !.mode = "cr"]
         ELSE IF b = HY THEN [s1 EXCEPT !.mode = "hy"]
         ELSE [s1 EXCEPT !.mode = "err", !.err = "bad-start"]
    [] st.mode = "cr" -> IF b = LF THEN [s1 EXCEPT !.mode = "head", !.m = 0, !.sec = n]
                         ELSE [s1 EXCEPT !.mode = "err", !.err = "bad-start"]
    [] st.mode = "hy" -> IF b = HY THEN [s1 EXCEPT !.mode = "stop"]
                         ELSE [s1 EXCEPT !.mode = "err", !.err = "bad-end"]
    [] st.mode = "head" ->
         LET k == IF b = HdrEnd[st.m + 1] THEN st.m + 1 ELSE IF b = CR THEN 1 ELSE 0 IN
         IF k = 4 THEN [s1 EXCEPT !.mode = "data", !.m = 0, !.sec = n,
                                  !.secs = Append(@, <<"headers", st.sec, n - 4>>)]
         ELSE [s1 EXCEPT !.m = k]

Feed(st, c, B) == FoldLeft(LAMBDA x, b : Byte(x, b, B), st, c)

(* ------------------ model 1: the scanner refines Parse ------------------- *)
VARIABLES body, st, i
vars == <<body, st, i>>
B0 == <<98>>                                   \* boundary "b"
Letters == {CR, LF, HY, 98, 120}
Pre == { << >>, <<HY, HY, 98>>, <<HY, HY, 98, CR, LF>>, <<HY, HY, 98, CR, LF, 104, CR, LF, CR>>,
         <<HY, HY, 98, CR, LF, CR, LF, CR, LF, 120, CR>>,
         <<HY, HY, 98, CR, LF, CR, LF, CR, LF, 120, CR, LF, HY, HY, 98>> }
MaxLen == EnvInt("MAXLEN")
Chunks == UNION {[1..k -> Letters] : k \in 1..2}
VARIABLE left
MInit == /\ body \in Pre /\ st = Feed(Scan0, body, B0) /\ i = 0 /\ left = MaxLen
MNext == /\ \E c \in Chunks : /\ Len(c) <= left /\ left' = left - Len(c)
                              /\ body' = body \o c /\ st' = Feed(st, c, B0)
         /\ UNCHANGED i
Refines == LET r == Parse(body, B0) IN
             /\ st.secs = r.secs /\ st.err = r.err /\ (st.mode = "stop" <=> r.stop)
(* prefix-monotone: what was found stays found *)
Monotone == [][IsPrefix(st.secs, st'.secs)]_vars
MSpec == MInit /\ [][MNext]_<<vars, left>>

(* ------------------ model 2: bodies built from tokens -------------------- *)
Tok == << Dash(B0), CRLF, <<HY, HY>>, <<104, 58, 118>>, <<120>>, <<CR>>, <<LF>>, <<HY>>, HdrEnd, Delim(B0) >>
MaxTok == EnvInt("MAXTOK")
TInit == /\ body \in { << >>, Dash(B0) \o CRLF, Dash(B0) \o CRLF \o <<104, 58, 118>> \o HdrEnd,
                       Dash(B0) \o CRLF \o <<104, 58, 118>> \o HdrEnd \o <<120>> \o Delim(B0) }
         /\ st = Scan0 /\ i = 0 /\ left = MaxTok
TNext == /\ left > 0 /\ left' = left - 1
         /\ \E t \in 1..Len(Tok) : body' = body \o Tok[t]
         /\ UNCHANGED <<st, i>>
TEmit == LET r == Parse(body, B0) IN Out([s |-> body, secs |-> r.secs, err |-> r.err])

(* -------------------------- encoding (C07) ------------------------------- *)
(* a field: [name, val, file (BOOLEAN), fn, ct (<< >> = no Content-Type), style] all as bytes;
   styles vary only in what RFC 7578 leaves to the sender                                      *)
Txt(str) == str
CD == <<67,111,110,116,101,110,116,45,68,105,115,112,111,115,105,116,105,111,110>>  \* Content-Disposition
CDl == <<99,111,110,116,101,110,116,45,100,105,115,112,111,115,105,116,105,111,110>>
FD == <<102,111,114,109,45,100,97,116,97>>                                          \* form-data
CT == <<67,111,110,116,101,110,116,45,84,121,112,101>>                              \* Content-Type
CTl == <<99,111,110,116,101,110,116,45,116,121,112,101>>
NM == <<110,97,109,101>>  FN == <<102,105,108,101,110,97,109,101>>
DQ == 34  SC == 59  EQ == 61  SP == 32  CO == 58

Quoted(v) == <<DQ>> \o v \o <<DQ>>
FDu == <<70,79,82,77,45,68,65,84,65>>  NMu == <<78,65,77,69>>  FNu == <<70,73,76,69,78,65,77,69>>
(* a header the receiver ignores: X-Note: form-data; name="q"; filename="z"; x=y *)
Note == <<88,45,78,111,116,101,CO,SP>> \o FD \o <<SC,SP>> \o NM \o <<EQ,DQ,113,DQ,SC,SP>> \o FN \o <<EQ,DQ,122,DQ,SC,SP,120,EQ,121>>
(* style 0 plain, 1 lower case, 2 the type first, 3 another header first, 4 no spaces, 5 the file name first, 6 capitals and another header behind *)
Headers(f) ==
  LET low == f.style = 1
      caps == f.style = 6
      sp == IF f.style = 4 THEN << >> ELSE <<SP>>
      nm == <<SC>> \o sp \o (IF caps THEN NMu ELSE NM) \o <<EQ>> \o Quoted(f.name)
      fn == IF f.file THEN <<SC>> \o sp \o (IF caps THEN FNu ELSE FN) \o <<EQ>> \o Quoted(f.fn) ELSE << >>
      cd == (IF low THEN CDl ELSE CD) \o <<CO>> \o sp \o (IF caps THEN FDu ELSE FD) \o (IF f.style = 5 THEN fn \o nm ELSE nm \o fn)
      ct == IF f.ct = << >> THEN << >> ELSE (IF low THEN CTl ELSE CT) \o <<CO>> \o sp \o f.ct
      both == IF ct = << >> THEN cd ELSE IF f.style = 2 THEN ct \o CRLF \o cd ELSE cd \o CRLF \o ct
  IN IF f.style = 3 THEN Note \o CRLF \o both ELSE IF caps THEN both \o CRLF \o Note ELSE both
Part(f, B) == Dash(B) \o CRLF \o Headers(f) \o HdrEnd \o f.val \o CRLF
Encode(fs, B, tail) == FoldLeft(LAMBDA a, f : a \o Part(f, B), << >>, fs) \o Dash(B) \o <<HY, HY>> \o tail

(* the values of one name in submission order *)
Of(fs, n) == SelectSeq(fs, LAMBDA f : f.name = n)
Names(fs) == {fs[k].name : k \in 1..Len(fs)}
Seen(f) == IF f.file THEN [file |-> TRUE, val |-> f.val, fn |-> f.fn, ct |-> f.ct]
                     ELSE [file |-> FALSE, val |-> f.val]
View(fs) == {<<n, [k \in 1..Len(Of(fs, n)) |-> Seen(Of(fs, n)[k])]>> : n \in Names(fs)}
Forms(fs) == View(SelectSeq(fs, LAMBDA f : ~f.file))
Files(fs) == View(SelectSeq(fs, LAMBDA f : f.file))

(* model 3: the encoding is invertible: Parse finds exactly the parts *)
Vals == { << >>, <<120>>, CRLF, <<HY, HY, 98>>, <<CR, LF, HY, HY>>, <<CR, LF, HY, 98>>, <<CR>>, <<CR, LF, CR, LF>>,
          <<120, CR, LF, HY>>, <<HY, HY>> }
Clash(v, B) == Find(CRLF \o v \o CRLF, 1, Delim(B)) # 0
Fld == {[name |-> n, val |-> v, file |-> f, fn |-> <<SC, EQ, 97>>, ct |-> IF f THEN <<97, 47, 98>> ELSE << >>, style |-> sty] :
          n \in {<<97>>, <<98, SC>>}, v \in {x \in Vals : ~Clash(x, B0)}, f \in BOOLEAN, sty \in {0, 1, 3, 6}}
MaxF == EnvInt("MAXF")
EInit == body = << >> /\ st = << >> /\ i = 0 /\ left = MaxF
ENext == /\ left > 0 /\ left' = left - 1
         /\ \E f \in Fld : st' = Append(st, f)
         /\ body' = Encode(st', B0, CRLF) /\ UNCHANGED i
ValRange(k) == LET d == SelectSeq(Parse(body, B0).secs, LAMBDA x : x[1] = "data")[k + 1]
               IN Sub(body, d[2] + 1, d[3])
RoundTrip == st # << >> =>
   LET r == Parse(body, B0) IN
     /\ r.err = "" /\ r.stop
     /\ Len(r.secs) = 1 + 2 * Len(st)
     /\ \A k \in 1..Len(st) : ValRange(k) = st[k].val
                           /\ Sub(body, r.secs[2 * k][2] + 1, r.secs[2 * k][3]) = Headers(st[k])
Pairs(v) == SetToSeq(v)
EEmit == st # << >> => Out([s |-> body, fields |-> st])

(* -------------- model 4: damaged bodies (C12), as token lists ------------- *)
D1 == Dash(B0)
NameA == CD \o <<CO, SP>> \o FD \o <<SC, SP>> \o NM \o <<EQ, DQ, 97, DQ>>
FileF == <<SC, SP>> \o FN \o <<EQ, DQ, 102, DQ>>
CTH == CT \o <<CO, SP, 97, 47, 98>>
Base1 == << D1, CRLF, NameA, HdrEnd, <<120, 121>>, CRLF, D1, CRLF, NameA \o FileF, CRLF, CTH, HdrEnd, <<122>>, CRLF, D1, <<HY, HY>>, CRLF >>
Junk == << << >>, CRLF, <<CR>>, <<LF>>, <<HY>>, D1, HdrEnd, <<CO>>, <<DQ>>, <<SC>>, <<EQ>>, <<255>>, <<0>>,
           CD, CD \o <<CO>>, CD \o <<CO, SP>> \o FD, NM \o <<EQ>>, CT \o <<CO>>, NameA, FileF, <<SP>>, <<194, 133>>,
           CD \o <<CO>> \o <<SC>> \o NM \o <<EQ>>, <<SC>> \o NM >>
Muts == EnvInt("MUTS")
CatToks(ts) == FoldLeft(LAMBDA a, t : a \o t, << >>, ts)
DInit == st = Base1 /\ body = CatToks(Base1) /\ i = 0 /\ left = Muts
Edit(ts) == {Take(ts, p - 1) \o <<Junk[j]>> \o Drop(ts, p) : p \in 1..Len(ts), j \in 1..Len(Junk)}
       \cup {Take(ts, p - 1) \o <<Junk[j]>> \o Drop(ts, p - 1) : p \in 1..(Len(ts) + 1), j \in 2..Len(Junk)}
       \cup {Take(ts, p) : p \in 0..Len(ts)}
       \cup {Take(ts, p) \o Take(ts, q) \o Drop(ts, q) : p \in {5, 8, 13}, q \in {0, 5}}
DNext == /\ left > 0 /\ left' = left - 1 /\ st' \in Edit(st) /\ body' = CatToks(st') /\ UNCHANGED i
DEmit == Out([s |-> body])

(* -------------------------------- judges --------------------------------- *)
ErrName(e) == IF e = "" THEN FALSE ELSE TRUE
(* kind "markup": secs/err of the one-piece parse *)
WhyMarkup(o) ==
  LET r == Parse(o.s, o.b) IN
  FirstFail(<< <<(o.err # "") = (r.err # ""), "error-differs-from-whole-body-meaning">>,
               <<[k \in 1..Len(o.secs) |-> <<o.secs[k][1], o.secs[k][2], o.secs[k][3]>>] = r.secs, "sections-differ-from-whole-body-meaning">> >>)

(* kind "form": the application's view of an encoded form *)
AsView(v) == {<<v[k][1], v[k][2]>> : k \in 1..Len(v)}
WhyForm(o) ==
  FirstFail(<< <<Has(o, "s") => o.s = Encode(o.fields, o.b, o.tail), "machinery-encoding-differs">>,
               <<o.status = 200, "well-formed-form-refused">>,
               <<o.status = 200 => AsView(o.forms) = Forms(o.fields), "forms-differ">>,
               <<o.status = 200 => AsView(o.files) = Files(o.fields), "files-differ">>,
               <<o.status = 200 => AsView(o.post) = View(o.fields), "post-differs">> >>)

(* kind "junk": any bytes; vals = the delivered field values *)
WhyJunk(o) ==
  LET r == Parse(o.s, o.b)
      done == {Sub(o.s, r.secs[k][2] + 1, r.secs[k][3]) : k \in {k \in 2..Len(r.secs) : r.secs[k][1] = "data"}}
  IN FirstFail(<< <<o.status = 200 \/ o.status \in 400..499, "neither-success-nor-client-error">>,
                  <<~o.trace, "traceback-on-wsgi-errors">>,
                  <<o.mp /\ o.status = 200 => \A k \in 1..Len(o.vals) : o.vals[k] \in done, "undelimited-or-altered-field-delivered">> >>)

Why(o) == CASE o.kind = "markup" -> WhyMarkup(o)
            [] o.kind = "form" -> WhyForm(o)
            [] o.kind = "junk" -> WhyJunk(o)
JInit == i = 1 /\ body = << >> /\ st = << >> /\ left = 0
JNext == i < Len(In) /\ i' = i + 1 /\ UNCHANGED <<body, st, left>>
JEmit == Out([i |-> i, why |-> Why(In[i])])
=============================================================================

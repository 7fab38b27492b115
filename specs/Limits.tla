------------------------------- MODULE Limits -------------------------------
(* C13: what one request body may consume, under both framings.

   A body is a list of chunks <<h, n>>: h framing bytes announcing n payload bytes
   (h = 0 and one chunk for Content-Length framing; a chunked payload is followed by
   a 2-byte terminator and the body by a terminator of `last` bytes).             *)
EXTENDS VF

None == -1
VARIABLES chunks, framed, lim, buf,            \* scenario
          c, ph, got, pos, spool, phase, i     \* reader: chunk index, part of it, payload, offset
vars == <<chunks, framed, lim, buf, c, ph, got, pos, spool, phase, i>>

Total(cs) == FoldLeft(LAMBDA a, x : a + x[2], 0, cs)
Framing(cs, f) == IF f THEN FoldLeft(LAMBDA a, x : a + x[1] + 2, 0, cs) ELSE 0

MaxChunk == EnvInt("MAXCHUNK")
MaxN == EnvInt("MAXN")
Init == /\ framed \in BOOLEAN
        /\ chunks \in IF framed THEN UNION {[1..k -> {<<3, n>> : n \in 1..MaxChunk}] : k \in 0..MaxN}
                                ELSE {<< >>} \cup {<< <<0, n>> >> : n \in 1..(MaxChunk * MaxN)}
        /\ lim \in {None} \cup 0..4 /\ buf \in {3, 4, 6}
        /\ c = 1 /\ ph = <<"head", 0>> /\ got = 0 /\ pos = 0 /\ spool = "mem" /\ i = 0
        /\ phase = "reading"

After(g) == IF lim # None /\ g > lim THEN "refused" ELSE phase
Head1 == /\ phase = "reading" /\ c <= Len(chunks) /\ ph[1] = "head"
         /\ pos' = pos + chunks[c][1] /\ ph' = <<"data", 0>>
         /\ UNCHANGED <<chunks, framed, lim, buf, c, got, spool, phase, i>>
Data(k) == /\ phase = "reading" /\ c <= Len(chunks) /\ ph[1] = "data"
           /\ k \in 1..Min2(buf, chunks[c][2] - ph[2])
           /\ pos' = pos + k /\ got' = got + k
           /\ spool' = IF got' > buf THEN "disk" ELSE spool
           /\ phase' = After(got')
           /\ IF ph[2] + k = chunks[c][2]
                THEN ph' = <<"tail", 0>> ELSE ph' = <<"data", ph[2] + k>>
           /\ UNCHANGED <<chunks, framed, lim, buf, c, i>>
Tail1 == /\ phase = "reading" /\ c <= Len(chunks) /\ ph[1] = "tail"
         /\ pos' = pos + (IF framed THEN 2 ELSE 0) /\ c' = c + 1 /\ ph' = <<"head", 0>>
         /\ UNCHANGED <<chunks, framed, lim, buf, got, spool, phase, i>>
Finish == /\ phase = "reading" /\ c > Len(chunks) /\ phase' = "done"
          /\ pos' = pos + (IF framed THEN 5 ELSE 0)
          /\ UNCHANGED <<chunks, framed, lim, buf, c, ph, got, spool, i>>
Next == Head1 \/ (\E k \in 1..MaxChunk * MaxN : Data(k)) \/ Tail1 \/ Finish

(* --------------------------- what may be consumed ------------------------ *)
(* the stream offset up to which a reader limited to lim may go: where the payload
   reaches lim + buf, plus the framing that directly follows it                   *)
RECURSIVE OffsetOf(_, _, _)
OffsetOf(cs, f, want) ==
  IF cs = << >> THEN (IF f THEN 5 ELSE 0)
  ELSE IF cs[1][2] >= want THEN cs[1][1] + want
  ELSE cs[1][1] + cs[1][2] + (IF f THEN 2 ELSE 0) + OffsetOf(Tail(cs), f, want - cs[1][2])
MaxHead(cs) == FoldLeft(LAMBDA a, x : Max2(a, x[1]), 5, cs)
Allow(cs, f, lm, b) ==
  IF lm = None THEN OffsetOf(cs, f, 999999999)
  ELSE OffsetOf(cs, f, lm + b) + (IF f THEN 2 + MaxHead(cs) ELSE 0)

Consumed == lim # None => got <= lim + buf /\ pos <= Allow(chunks, framed, lim, buf)
Refused  == phase = "refused" <=> (phase # "reading" /\ lim # None /\ Total(chunks) > lim)
Complete == phase = "done" => got = Total(chunks)
Spooled  == got > buf <=> spool = "disk"
Inv == Consumed /\ Refused /\ Complete /\ Spooled
(* one line per scenario *)
Emit == (phase \in {"done", "refused"}) =>
          Out([chunks |-> chunks, framed |-> framed, lim |-> lim, buf |-> buf, phase |-> phase,
               disk |-> (phase = "done" /\ got > buf)])

(* --------------------------------- judge --------------------------------- *)
StepCall(o, st, call) ==
  IF st.why # "" THEN st
  ELSE LET n == IF o.framed THEN call[1] ELSE call[1] IN
       IF n < 0 THEN [st EXCEPT !.why = "unbounded-read"]
       ELSE IF o.lim # None /\ st.pos + n > o.allow THEN [st EXCEPT !.why = "read-beyond-limit-plus-buffer"]
       ELSE [st EXCEPT !.pos = @ + call[2]]
WhyBody(o0) ==
  LET o == o0 @@ [allow |-> Allow(o0.chunks, o0.framed, o0.lim, o0.buf)]
      st == FoldLeft(LAMBDA s, x : StepCall(o, s, x), [pos |-> 0, why |-> ""], o.calls)
      n == Total(o.chunks)
  IN IF st.why # "" THEN st.why
     ELSE IF o.lim # None /\ n > o.lim
            THEN IF o.status = 413 THEN "" ELSE "body-over-limit-not-413"
     ELSE IF o.status # 200 THEN "body-within-limit-not-accepted"
     ELSE IF o.prefix # n THEN "content-differs"
     ELSE IF n > o.buf /\ o.mem # "disk" THEN "large-body-kept-in-memory"
     ELSE IF o.peak > 0 /\ n > 20 * o.buf /\ o.peak > n \div 2 + 65536 THEN "large-body-passed-through-memory"
     ELSE ""

(* form text: `text` bytes of it, `extra` bytes of part headers held with it *)
WhyForm(o) ==
  IF o.lim # None /\ o.total > o.lim THEN IF o.status = 413 THEN "" ELSE "form-over-body-limit-not-413"
  ELSE IF o.text > o.thr THEN IF o.status \in 400..499 THEN "" ELSE "form-text-over-threshold-loaded"
  ELSE IF o.text + o.extra <= o.thr
         THEN IF o.status # 200 THEN "form-within-threshold-refused"
              ELSE IF ~o.exact THEN "form-content-differs" ELSE ""
  ELSE IF o.status \in 400..499 \/ (o.status = 200 /\ o.exact) THEN "" ELSE "form-neither-exact-nor-refused"

(* a stream that never ends: a size line without an end, or chunk after chunk.  It is given up, as a client
   error, after a bounded number of bytes (generous: every byte of a body may carry ten of framing).       *)
WhyEndless(o) ==
  IF o.read > 10 * ((IF o.lim = None THEN 0 ELSE o.lim) + o.buf) + 64 * o.buf + 65536 THEN "endless-stream-read-without-bound"
  ELSE IF o.status \notin 400..499 THEN "endless-stream-not-a-client-error" ELSE ""
Why(o) == CASE o.kind = "body" -> WhyBody(o) [] o.kind = "endless" -> WhyEndless(o) [] OTHER -> WhyForm(o)
JInit == /\ i = 1 /\ chunks = << >> /\ framed = FALSE /\ lim = 0 /\ buf = 1 /\ c = 1 /\ ph = <<"head", 0>>
         /\ got = 0 /\ pos = 0 /\ spool = "mem" /\ phase = "done"
JNext == i < Len(In) /\ i' = i + 1
         /\ UNCHANGED <<chunks, framed, lim, buf, c, ph, got, pos, spool, phase>>
JEmit == Out([i |-> i, why |-> Why(In[i])])
=============================================================================

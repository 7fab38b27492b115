----------------------------- MODULE BodyReader -----------------------------
(* C04 / C13: a Content-Length body read from a server stream that fragments
   reads as it likes, kept in memory up to Buf bytes and on disk beyond, and
   refused once it exceeds Lim.

   The stream delivers byte i at position i; so a delivered body is described
   by the length of the stream prefix it equals.                           *)
EXTENDS VF

None == -1

VARIABLES cl, avail, buf, lim,      \* the scenario
          rest, pos, spool, phase,  \* the reader
          ks                        \* history: bytes returned by each read

vars == <<cl, avail, buf, lim, rest, pos, spool, phase, ks>>

MaxCL == EnvInt("MAXCL")
MaxAvail == EnvInt("MAXAVAIL")
Bufs == {1, 2, 3, 8}
Lims == {None} \cup 0..MaxCL

Init == /\ cl \in 0..MaxCL /\ avail \in 0..MaxAvail /\ buf \in Bufs /\ lim \in Lims
        /\ rest = cl /\ pos = 0 /\ spool = "mem" /\ ks = << >>
        /\ phase = IF cl = 0 THEN "done" ELSE "reading"

(* One read(n) answered with k bytes.  The reader may ask for any n within what is
   owed, and, when limited, within limit + one buffer. *)
MayAsk(n) == /\ n >= 1 /\ n <= rest
             /\ (lim # None => pos + n <= lim + Max2(buf, 1))
Answers(n) == IF pos = avail THEN {0} ELSE 1..Min2(n, avail - pos)

Read(n, k) ==
  /\ phase = "reading" /\ MayAsk(n) /\ k \in Answers(n)
  /\ pos' = pos + k /\ rest' = rest - k /\ ks' = Append(ks, k)
  /\ spool' = IF pos' > buf THEN "disk" ELSE spool
  /\ phase' = IF lim # None /\ pos' > lim THEN "refused"
              ELSE IF rest' = 0 \/ k = 0 THEN "done" ELSE "reading"
  /\ UNCHANGED <<cl, avail, buf, lim>>

Next == \E n \in {Min2(rest, buf)} : \E k \in 0..n : Read(n, k)
NextAny == \E n \in 1..Max2(rest, 1) : \E k \in 0..n : Read(n, k)

(* ------------------------------ properties ------------------------------ *)
Bounded == pos <= cl /\ (lim # None => pos <= lim + buf)
Exact   == phase = "done" => pos = Min2(cl, avail)
Refused == phase = "refused" => Min2(cl, avail) > lim
Accept  == phase = "done" => (lim = None \/ Min2(cl, avail) <= lim)
OnDisk  == phase = "done" => (spool = "disk" <=> pos > buf)
NotStuck == phase = "reading" => \E n \in 1..rest : MayAsk(n)
Inv == Bounded /\ Exact /\ Refused /\ Accept /\ OnDisk /\ NotStuck

Emit == phase \in {"done", "refused"} =>
          Out([cl |-> cl, avail |-> avail, buf |-> buf, lim |-> lim, ks |-> ks,
               phase |-> phase, prefix |-> pos, spool |-> spool])

(* ------------------------------- the judge ------------------------------ *)
(* A recorded run: calls = <<<<n, k>>, ...>>, status (200 / 413 / ...), prefix
   (-1: the body is no prefix of the stream), mem = "mem" | "disk". *)
VARIABLE i

StepCall(lm, b, st, c) ==
  LET n == c[1]  k == c[2] IN
  IF st.why # "" THEN st
  ELSE IF n < 0 THEN [st EXCEPT !.why = "unbounded-read"]
  ELSE IF n > st.rest THEN [st EXCEPT !.why = "read-beyond-content-length"]
  ELSE IF lm # None /\ st.pos + n > lm + Max2(b, 1) THEN [st EXCEPT !.why = "read-beyond-limit-plus-buffer"]
  ELSE [st EXCEPT !.rest = @ - k, !.pos = @ + k]

Why(o) ==
  LET st == FoldLeft(LAMBDA s, c : StepCall(o.lim, o.buf, s, c), [rest |-> o.cl, pos |-> 0, why |-> ""], o.calls)
      want == Min2(o.cl, o.avail)
      over == o.lim # None /\ want > o.lim
  IN IF st.why # "" THEN st.why
     ELSE IF over THEN (IF o.status = 413 THEN "" ELSE "over-limit-not-413")
     ELSE IF o.status # 200
            THEN (IF o.lim # None /\ o.cl > o.lim /\ o.status = 413 THEN "" ELSE "body-within-limit-refused")
     ELSE IF o.prefix # want THEN "body-not-exact"
     ELSE IF want > o.buf /\ o.mem # "disk" THEN "large-body-in-memory"
     ELSE IF ~o.again THEN "second-access-differs"
     ELSE ""

JVars == <<vars, i>>
JInit == /\ i = 1 /\ cl = 0 /\ avail = 0 /\ buf = 1 /\ lim = None /\ rest = 0 /\ pos = 0
         /\ spool = "mem" /\ phase = "done" /\ ks = << >>
JNext == i < Len(In) /\ i' = i + 1 /\ UNCHANGED vars
JEmit == Out([i |-> i, why |-> Why(In[i])])
GInit == Init /\ i = 0
GNext == Next /\ UNCHANGED i
GNextAny == NextAny /\ UNCHANGED i
=============================================================================

----------------------------- MODULE ThreadStore -----------------------------
(* C08: threads serve requests through the request and response objects of one application.
   A worker runs the program of its request: begin (the objects are initialised for the request), what the handler does
   (reads of the request, writes to the response, reads of what was written), end (the outcome), send (status and header list
   are computed), finish (the body is taken).  The objects are shared, their content is kept per thread: Store(t).
   SHARED = 1 is the same machine with one content for all threads; TLC shows that Isolation then fails.             *)
EXTENDS VF

N == EnvInt("THREADS")
SHARED == EnvInt("SHARED")
MaxOps == EnvInt("MAXOPS")
FULL == EnvInt("FULL")
T == 1..N
Tag(t) == "t" \o ToString(t)

Reads == {"path", "query", "header", "cookie", "arg", "attr", "url", "method", "body"}
Writes == {"set", "add", "cookie", "status", "del", "attr"}
Names == {"X-One", "X-Two"}
ReadOps == [k : {"read"}, a : IF FULL = 1 THEN Reads ELSE {"path", "attr"}]
WriteOps == [k : {"set", "add"}, a : Names] \cup [k : {"cookie", "status"}, a : {"c"}] \cup [k : {"keep"}, a : {"attr"}] \cup [k : {"del"}, a : {"X-One"}]
BackOps == [k : {"back"}, a : Names] \cup [k : {"line"}, a : {"s"}]
Ops == ReadOps \cup (IF FULL = 1 THEN WriteOps \cup BackOps ELSE {[k |-> "set", a |-> "X-One"], [k |-> "back", a |-> "X-One"], [k |-> "cookie", a |-> "c"], [k |-> "status", a |-> "c"]})
Ends == IF FULL = 1 THEN {"text", "gen", "raise", "return", "abort", "crash", "empty", "bytes", "late"} ELSE {"text", "raise", "crash"}

VARIABLES prog, pc, store, log, res, sched, i
vars == <<prog, pc, store, log, res, sched, i>>
Fresh(t) == [req |-> Tag(t), status |-> 200, hdr |-> [n \in Names |-> << >>], jar |-> << >>, kept |-> "", own |-> 0]
Empty == [req |-> "", status |-> 0, hdr |-> [n \in Names |-> << >>], jar |-> << >>, kept |-> "", own |-> 0]
Val(t, k) == Tag(t) \o "." \o ToString(k)
(* one operation of a program on a content c: new content and what is seen *)
Do(c, t, k, op) ==
  CASE op.k = "read" -> [c |-> c, see |-> IF op.a = "attr" THEN << <<op.a, c.kept>> >> ELSE << <<op.a, c.req>> >>]
    [] op.k = "set" -> [c |-> [c EXCEPT !.hdr[op.a] = <<Val(t, k)>>], see |-> << >>]
    [] op.k = "add" -> [c |-> [c EXCEPT !.hdr[op.a] = Append(@, Val(t, k))], see |-> << >>]
    [] op.k = "del" -> [c |-> [c EXCEPT !.hdr[op.a] = << >>], see |-> << >>]
    [] op.k = "cookie" -> [c |-> [c EXCEPT !.jar = <<Val(t, k)>>], see |-> << >>]
    [] op.k = "status" -> [c |-> [c EXCEPT !.status = 210 + 10 * t + k], see |-> << >>]
    [] op.k = "keep" -> [c |-> [c EXCEPT !.kept = Val(t, k)], see |-> << >>]
    [] op.k = "back" -> [c |-> c, see |-> << <<op.a, IF c.hdr[op.a] = << >> THEN "" ELSE c.hdr[op.a][Len(c.hdr[op.a])]>> >>]
    [] OTHER -> [c |-> c, see |-> << <<"status", ToString(c.status)>> >>]
(* the outcome: a raised or returned response replaces status and headers, an error is reported by the framework *)
Own(t) == [n \in Names |-> IF n = "X-One" THEN << Tag(t) \o ".r">> ELSE << >>]
None == [n \in Names |-> << >>]
Outcome(c, t, e) ==
  CASE e \in {"text", "gen", "empty", "bytes"} -> c
    [] e \in {"raise", "return", "late"} -> [c EXCEPT !.status = 200 + t, !.hdr = Own(t), !.jar = <<Tag(t) \o ".r">>]
    [] e = "abort" -> [c EXCEPT !.status = 404, !.hdr = None]
    [] OTHER -> [c EXCEPT !.status = 500, !.hdr = None]
Reply(c, t, e) == [status |-> c.status, hdr |-> c.hdr, jar |-> c.jar, body |-> IF e = "empty" THEN "" ELSE IF e \in {"abort", "crash"} THEN "page" ELSE c.req]
RECURSIVE Run(_, _, _, _, _)
Run(c, t, k, ops, seen) == IF k > Len(ops) THEN [c |-> c, see |-> seen]
                           ELSE LET d == Do(c, t, k, ops[k]) IN Run(d.c, t, k + 1, ops, seen \o d.see)
Solo(t, p) == LET r == Run(Fresh(t), t, 1, p.ops, << >>) IN [log |-> r.see, res |-> Reply(Outcome(r.c, t, p.end), t, p.end)]

Cell(t) == IF SHARED = 1 THEN 1 ELSE t
Programs == [ops : UNION {[1..m -> Ops] : m \in 0..MaxOps}, end : Ends]
Idle == [ops |-> << >>, end |-> "-"]
NoRes == [status |-> 0, hdr |-> None, jar |-> << >>, body |-> "-"]
Init == /\ prog = [t \in T |-> Idle] /\ pc = [t \in T |-> -1]
        /\ store = [t \in T |-> Empty] /\ log = [t \in T |-> << >>] /\ res = [t \in T |-> NoRes] /\ sched = << >> /\ i = 0
(* programs grow step by step, one per thread, before anything runs *)
Write == /\ \E t \in T : /\ pc[t] = -1 /\ \A u \in T : u < t => pc[u] = 0
                         /\ \/ Len(prog[t].ops) < MaxOps /\ \E op \in Ops : prog' = [prog EXCEPT ![t].ops = Append(@, op)] /\ pc' = pc
                            \/ \E e \in Ends : prog' = [prog EXCEPT ![t].end = e] /\ pc' = [pc EXCEPT ![t] = 0]
         /\ UNCHANGED <<store, log, res, sched, i>>
Ready == \A t \in T : pc[t] >= 0
Step(t) == LET p == prog[t]  n == Len(p.ops)  x == Cell(t) IN
  /\ Ready /\ pc[t] <= n + 3 /\ pc' = [pc EXCEPT ![t] = @ + 1] /\ sched' = Append(sched, t) /\ UNCHANGED <<prog, i>>
  /\ IF pc[t] = 0 THEN store' = [store EXCEPT ![x] = Fresh(t)] /\ UNCHANGED <<log, res>>
     ELSE IF pc[t] <= n THEN LET d == Do(store[x], t, pc[t], p.ops[pc[t]]) IN store' = [store EXCEPT ![x] = d.c] /\ log' = [log EXCEPT ![t] = @ \o d.see] /\ UNCHANGED res
     ELSE IF pc[t] = n + 1 THEN store' = [store EXCEPT ![x] = Outcome(@, t, p.end)] /\ UNCHANGED <<log, res>>
     ELSE IF pc[t] = n + 2 THEN res' = [res EXCEPT ![t] = Reply(store[x], t, p.end)] /\ UNCHANGED <<store, log>>
     ELSE UNCHANGED <<store, log, res>>
Next == Write \/ \E t \in T : Step(t)
Over(t) == pc[t] = Len(prog[t].ops) + 4
Isolation == \A t \in T : pc[t] > Len(prog[t].ops) + 2 => /\ log[t] = Solo(t, prog[t]).log /\ res[t] = Solo(t, prog[t]).res
(* what a thread has seen so far is a prefix of what it sees alone *)
SeesOwn == \A t \in T : pc[t] >= 0 => IsPrefix(log[t], Solo(t, prog[t]).log)
View == <<prog, pc, store, log, res>>
Emit == (\A t \in T : pc[t] >= 0 /\ Over(t)) => Out([p |-> prog, s |-> sched])

(* -------------------------------- judge ----------------------------------- *)
(* o = [t, ops, end, log, res] *)
Why(o) == LET s == Solo(o.t, [ops |-> o.ops, end |-> o.end]) IN
  FirstFail(<< <<o.log = s.log, "handler-saw-something-else">>,
               <<o.res.status = s.res.status, "another-status">>,
               <<\A n \in Names : o.res.hdr[n] = s.res.hdr[n], "other-headers">>,
               <<o.res.jar = s.res.jar, "other-cookies">>,
               <<o.res.body = s.res.body, "another-body">> >>)
JInit == prog = [t \in T |-> Idle] /\ pc = [t \in T |-> 0] /\ store = [t \in T |-> Empty] /\ log = [t \in T |-> << >>] /\ res = [t \in T |-> NoRes] /\ sched = << >> /\ i = 1
JNext == i < Len(In) /\ i' = i + 1 /\ UNCHANGED <<prog, pc, store, log, res, sched>>
JEmit == Out([i |-> i, why |-> Why(In[i])])
=============================================================================

------------------------------ MODULE History ------------------------------
(* C09: one application, one worker thread, one request after the other.
   The thread's request and response objects (obj) survive between requests, so do the error objects of the configuration
   (shared).  A request passes the stages begin, handle, apply, answer; every value it puts anywhere carries its own tag, and the
   reply is what the tags say.  NoCarry: a reply holds the request's own tag only; Function: it is the reply of the same request
   served first.  BUG names one deviation of the machine for which TLC has to find a counterexample:
   "late" objects initialised after the path was decoded, "alias" error objects applied by reference, "jar" cookies survive the
   initialisation, "kept" attributes of the request survive.                                                              *)
EXTENDS VF

BUG == IOEnv.BUG
LEN == EnvInt("LEN")
FULL == EnvInt("FULL")
RAND == EnvInt("RAND")
Marks == {"status", "hdr", "list", "cookie", "attr"}
Paths == {"found", "404", "405", "undecodable"}
Bodies == {"none", "form", "chunk", "large", "json"}
Outs == {"text", "bytes", "gen", "empty", "raise", "error", "sharedresp", "crash", "late", "latecrash", "critical"}
Hooks == {"fine", "before", "after"}
MarkSets == IF FULL = 1 THEN SUBSET Marks ELSE {{}, Marks}
(* what a request does: irrelevant choices are fixed *)
Reqs == { r \in [path : Paths, body : Bodies, marks : MarkSets, out : Outs, hook : Hooks, head : {0, 1}, json : {0, 1}] :
            /\ r.path # "found" => r.body = "none" /\ r.marks = {} /\ r.out = "text"
            /\ r.path = "undecodable" => r.hook = "fine"
            /\ r.hook = "before" => r.body = "none" /\ r.marks = {} /\ r.out = "text"
            /\ r.body \in {"chunk", "large", "json"} => r.out = "text"
            /\ FULL = 0 => /\ r.head = 0 /\ r.hook \in {"fine", "before"} /\ (r.json = 1 => r.path = "undecodable" \/ r.out = "crash")
                           /\ r.out \in {"text", "raise", "error", "sharedresp", "crash", "critical"}
                           /\ (r.marks = {} => r.out = "text") /\ r.body \in {"none", "large"} }

VARIABLES hist, obj, shared, pc, got, out, i
vars == <<hist, obj, shared, pc, got, out, i>>
Tag(k) == "r" \o ToString(k)
NoObj == [req |-> "", status |-> 200, code |-> "", hdr |-> << >>, list |-> << >>, own |-> << >>, err |-> << >>, jar |-> {}, kept |-> ""]
NoErr == [list |-> << >>, err |-> << >>, jar |-> {}]
Zero == [e \in {"large", "resp"} |-> IF e = "large" THEN NoErr ELSE [list |-> <<"s", "s">>, err |-> << >>, jar |-> {"s=s"}]]
n == Len(hist)
cur == hist[n]
tag == Tag(n)
Fresh(o, t) == [NoObj EXCEPT !.req = t, !.jar = IF BUG = "jar" THEN o.jar ELSE {}, !.kept = IF BUG = "kept" THEN o.kept ELSE ""]
Mark(o, r, t) == [o EXCEPT !.status = IF "status" \in r.marks THEN 231 ELSE @, !.hdr = IF "hdr" \in r.marks THEN <<t>> ELSE @, !.list = IF "list" \in r.marks THEN <<t, t>> ELSE @,
                           !.jar = IF "cookie" \in r.marks THEN @ \cup {"c=" \o t} ELSE @, !.kept = IF "attr" \in r.marks THEN @ \o t ELSE @]
(* how the request ends: the name of its outcome *)
End(r) == IF r.path = "undecodable" THEN "400"
          ELSE IF r.hook # "fine" THEN "500"
          ELSE IF r.path # "found" THEN r.path
          ELSE IF r.body = "large" THEN "413" ELSE IF r.body \in {"chunk", "json"} THEN "400"
          ELSE IF r.out \in {"crash", "latecrash"} THEN "500"
          ELSE r.out
Codes == [x \in {"400", "404", "405", "500", "413"} |-> CASE x = "400" -> 400 [] x = "404" -> 404 [] x = "405" -> 405 [] x = "413" -> 413 [] OTHER -> 500]
(* applying a response replaces status and headers; cookies stay unless it has its own *)
Put(o, s, lst, own, err, jar) == [o EXCEPT !.status = s, !.hdr = << >>, !.list = lst, !.own = own, !.err = err, !.jar = IF jar = {} THEN @ ELSE jar]
Init == hist = << >> /\ obj = NoObj /\ shared = Zero /\ pc = "idle" /\ got = << >> /\ out = << >> /\ i = 0
Ask == pc = "idle" /\ Len(hist) < LEN /\ \E r \in (IF RAND = 1 THEN {RandomElement(Reqs)} ELSE Reqs) : hist' = Append(hist, r) /\ pc' = "begin" /\ UNCHANGED <<obj, shared, got, out, i>>
Begin == /\ pc = "begin" /\ pc' = "handle" /\ UNCHANGED <<hist, shared, got, out, i>>
         /\ obj' = IF BUG = "late" /\ cur.path = "undecodable" THEN obj ELSE Fresh(obj, tag)
(* the hook fails before the handler, the body is read before the handler marks, the after hook fails when all is done *)
Handle == /\ pc = "handle" /\ pc' = "apply" /\ UNCHANGED <<hist, shared, got, out, i>>
          /\ obj' = IF cur.path = "found" /\ cur.hook # "before" THEN Mark(obj, cur, tag) ELSE obj
Apply == /\ pc = "apply" /\ pc' = "handled" /\ UNCHANGED <<hist, shared, got, out, i>>
         /\ obj' = LET e == End(cur) IN
              CASE e \in {"text", "bytes", "gen", "empty", "critical"} -> obj
                [] e \in {"raise", "late"} -> Put(obj, 250, <<tag>>, <<tag>>, << >>, {"own=" \o tag})
                [] e = "error" -> Put(obj, 418, << >>, <<tag>>, << >>, {})
                [] e = "sharedresp" -> Put(obj, 419, shared["resp"].list, << >>, shared["resp"].err, shared["resp"].jar)
                [] e = "413" -> Put(obj, 413, shared["large"].list, << >>, shared["large"].err, shared["large"].jar)
                [] OTHER -> Put(obj, Codes[e], << >>, << >>, << >>, {})
(* the response raised for 419 is one object of the application, with header values and a cookie of its own.
   The error handlers of 413, 418 and 419 put a header, a list value and a cookie of their own onto the response *)
Handler == /\ pc = "handled" /\ pc' = "answer" /\ UNCHANGED <<hist, got, out, i>>
           /\ IF obj.status \in {413, 418, 419}
              THEN LET o2 == [obj EXCEPT !.err = Append(@, tag), !.list = Append(@, tag), !.jar = @ \cup {"err=" \o tag}] IN
                   /\ obj' = o2
                   /\ shared' = IF BUG = "alias" /\ obj.status = 413 THEN [shared EXCEPT !["large"] = [list |-> o2.list, err |-> o2.err, jar |-> o2.jar]]
                                ELSE IF BUG = "alias" /\ obj.status = 419 THEN [shared EXCEPT !["resp"] = [list |-> o2.list, err |-> o2.err, jar |-> o2.jar]] ELSE shared
              ELSE UNCHANGED <<obj, shared>>
(* 418 and 413 and 419 answer with the request's tag, other errors with a page *)
Body(o, r) == LET e == End(r) IN
   IF r.head = 1 /\ e # "critical" THEN "" ELSE IF e = "critical" THEN (IF r.head = 1 THEN "" ELSE "page")
   ELSE IF e = "empty" THEN "" ELSE IF o.status \in {400, 404, 405, 500} THEN (IF r.json = 1 THEN "json" ELSE "page") ELSE o.req \o "/" \o o.kept
Critical(t, r) == [status |-> 500, hdr |-> << >>, list |-> << >>, own |-> << >>, err |-> << >>, jar |-> {}, body |-> IF r.head = 1 THEN "" ELSE IF r.json = 1 THEN "json" ELSE "page", seen |-> t]
Reply(o, r) == IF End(r) = "critical" THEN Critical(o.req, r)
               ELSE [status |-> o.status, hdr |-> o.hdr, list |-> o.list, own |-> o.own, err |-> o.err, jar |-> o.jar, body |-> Body(o, r), seen |-> o.req]
Answer == pc = "answer" /\ pc' = "idle" /\ got' = Append(got, Reply(obj, cur)) /\ UNCHANGED <<hist, obj, shared, out, i>>
Next == Ask \/ Begin \/ Handle \/ Apply \/ Handler \/ Answer

(* the same request served by a fresh application: one pass through the stages *)
Alone(r, t) ==
  LET a == Fresh(NoObj, t)
      b == IF r.path = "found" /\ r.hook # "before" THEN Mark(a, r, t) ELSE a
      e == End(r)
      c == CASE e \in {"text", "bytes", "gen", "empty", "critical"} -> b
             [] e \in {"raise", "late"} -> Put(b, 250, <<t>>, <<t>>, << >>, {"own=" \o t})
             [] e = "error" -> Put(b, 418, << >>, <<t>>, << >>, {})
             [] e = "sharedresp" -> Put(b, 419, <<"s", "s">>, << >>, << >>, {"s=s"})
             [] e = "413" -> Put(b, 413, << >>, << >>, << >>, {})
             [] OTHER -> Put(b, Codes[e], << >>, << >>, << >>, {})
      d == IF c.status \in {413, 418, 419} THEN [c EXCEPT !.err = Append(@, t), !.list = Append(@, t), !.jar = @ \cup {"err=" \o t}] ELSE c
  IN Reply(d, r)
Function == pc = "idle" => \A k \in 1..Len(got) : got[k] = Alone(hist[k], Tag(k))
Owns(g, t) == /\ \A f \in {"hdr", "list", "own", "err"} : ToSet(g[f]) \subseteq {t, "s"}
              /\ g.jar \subseteq {"c=" \o t, "own=" \o t, "err=" \o t, "s=s"} /\ g.seen \in {t, ""} /\ g.body \in {"", "page", "json", t \o "/", t \o "/" \o t}
NoCarry == \A k \in 1..Len(got) : Owns(got[k], Tag(k))
View == <<hist, obj, shared, pc, got>>
Emit == (pc = "idle" /\ Len(hist) = LEN) => Out([h |-> [k \in 1..Len(hist) |-> [hist[k] EXCEPT !.marks = SetToSeq(@)]]])

(* -------------------------------- judge ----------------------------------- *)
(* o = [r |-> request (marks as a sequence), t |-> tag, g |-> reply (jar as a sequence)] *)
Why(o) == LET r == [o.r EXCEPT !.marks = ToSet(@)]  w == Alone(r, o.t) IN
  FirstFail(<< <<o.g.status = w.status, "another-status">>, <<o.g.hdr = w.hdr, "another-header">>, <<o.g.list = w.list, "other-header-values">>, <<o.g.own = w.own, "another-own-header">>,
               <<o.g.err = w.err, "another-error-header">>, <<ToSet(o.g.jar) = w.jar, "other-cookies">>, <<o.g.body = w.body, "another-body">>, <<o.g.foreign = 0, "text-of-another-request">> >>)
JInit == hist = << >> /\ obj = NoObj /\ shared = Zero /\ pc = "idle" /\ got = << >> /\ out = << >> /\ i = 1
JNext == i < Len(In) /\ i' = i + 1 /\ UNCHANGED <<hist, obj, shared, pc, got, out>>
JEmit == Out([i |-> i, why |-> Why(In[i])])
=============================================================================

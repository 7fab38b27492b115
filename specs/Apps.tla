------------------------------- MODULE Apps -------------------------------
(* C10: several applications in one process.  A thread serves a stack of requests: a handler may call another application (one
   that is not on the thread's stack yet), copy its request, construct applications.  Store: content per application and thread.
   Every handler, whatever happens around it, finds what it put there.  SHARE = "apps": one content for all applications of a
   thread, "threads": one content per application for all threads, "copy": a copied request shares the attributes of the
   original and "new": constructing an application empties the contents - for each of them TLC has to refute Own.        *)
EXTENDS VF

SHARE == IOEnv.SHARE
A == 1..EnvInt("APPS")
T == 1..EnvInt("THREADS")
LEN == EnvInt("LEN")
FULL == EnvInt("FULL")
Writes == IF FULL = 1 THEN {"status", "hdr", "list", "cookie", "attr", "del"} ELSE {"hdr", "attr"}
Ends == IF FULL = 1 THEN {"text", "gen", "raise", "crash", "abort", "redirect", "static", "return", "empty"} ELSE {"text", "crash"}

VARIABLES stack, store, ghost, n, ev, i
vars == <<stack, store, ghost, n, ev, i>>
Tag(k) == "r" \o ToString(k) \o "q"
None == [tag |-> "", status |-> 200, hdr |-> << >>, list |-> << >>, jar |-> {}, kept |-> ""]
Fresh(t) == [None EXCEPT !.tag = t]
Put(c, w, v) == CASE w = "status" -> [c EXCEPT !.status = 231] [] w = "hdr" -> [c EXCEPT !.hdr = <<v>>] [] w = "list" -> [c EXCEPT !.list = Append(@, v)]
                  [] w = "cookie" -> [c EXCEPT !.jar = {"c=" \o v}] [] w = "attr" -> [c EXCEPT !.kept = v] [] OTHER -> [c EXCEPT !.hdr = << >>]
Top(s) == s[Len(s)]
Cell(a, t) == <<IF SHARE = "apps" THEN 1 ELSE a, IF SHARE = "threads" THEN 1 ELSE t>>
Init == /\ stack = [t \in T |-> << >>] /\ store = [x \in A \X T |-> None] /\ ghost = [t \in T |-> << >>] /\ n = 0 /\ ev = << >> /\ i = 0
Log(e) == ev' = Append(ev, e)
Event(k, t, a, w, tag) == [k |-> k, t |-> t, a |-> a, w |-> w, tag |-> tag]
More == Len(ev) < LEN
Call(t, a) == /\ More /\ Len(stack[t]) < 3 /\ a \notin ToSet(stack[t])
              /\ n' = n + 1 /\ stack' = [stack EXCEPT ![t] = Append(@, a)] /\ store' = [store EXCEPT ![Cell(a, t)] = Fresh(Tag(n + 1))]
              /\ ghost' = [ghost EXCEPT ![t] = Append(@, Fresh(Tag(n + 1)))] /\ Log(Event("call", t, a, "", Tag(n + 1))) /\ UNCHANGED i
Write(t, w) == /\ More /\ stack[t] # << >> /\ n' = n + 1
               /\ store' = [store EXCEPT ![Cell(Top(stack[t]), t)] = Put(@, w, Tag(n + 1))]
               /\ ghost' = [ghost EXCEPT ![t] = Append(SubSeq(@, 1, Len(@) - 1), Put(Top(@), w, Tag(n + 1)))]
               /\ Log(Event("write", t, Top(stack[t]), w, Tag(n + 1))) /\ UNCHANGED <<stack, i>>
(* a copy of the request is made and changed: the original stays *)
Copy(t) == /\ More /\ stack[t] # << >> /\ n' = n + 1
           /\ store' = IF SHARE = "copy" THEN [store EXCEPT ![Cell(Top(stack[t]), t)] = [@ EXCEPT !.kept = Tag(n + 1)]] ELSE store
           /\ Log(Event("copy", t, Top(stack[t]), "", Tag(n + 1))) /\ UNCHANGED <<stack, ghost, i>>
New(t) == /\ More /\ stack[t] # << >>
          /\ store' = IF SHARE = "new" THEN [x \in A \X T |-> IF x[2] = t THEN None ELSE store[x]] ELSE store
          /\ Log(Event("new", t, Top(stack[t]), "", "")) /\ UNCHANGED <<stack, ghost, n, i>>
Read(t, d) == /\ More /\ d \in 1..Len(stack[t]) /\ Log(Event("read", t, stack[t][d], "", "")) /\ UNCHANGED <<stack, store, ghost, n, i>>
Return(t, e) == /\ stack[t] # << >>
                /\ stack' = [stack EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)] /\ ghost' = [ghost EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
                /\ Log(Event("ret", t, Top(stack[t]), e, "")) /\ UNCHANGED <<store, n, i>>
Next == \E t \in T : \/ \E a \in A : Call(t, a)
                     \/ \E w \in Writes : Write(t, w)
                     \/ Copy(t) \/ New(t)
                     \/ \E d \in 1..3 : Read(t, d)
                     \/ \E e \in Ends : Return(t, e)
Own == \A t \in T : \A d \in 1..Len(stack[t]) : store[Cell(stack[t][d], t)] = ghost[t][d]
View == <<stack, store, ghost, n, Len(ev)>>
Emit == (Len(ev) >= LEN /\ \A t \in T : stack[t] = << >>) => Out([e |-> ev])

(* ------------------- judge: what the handlers saw and what came out -------------------- *)
Shows(c) == [tag |-> c.tag, status |-> c.status, hdr |-> c.hdr, list |-> c.list, kept |-> c.kept]
(* the reply of a request that ends with e; a raised or failed response replaces status and headers, cookies stay *)
Reply(c, e) ==
  LET Bare(s, b) == [status |-> s, hdr |-> << >>, list |-> << >>, jar |-> c.jar, body |-> b]
      Full(b) == [status |-> c.status, hdr |-> c.hdr, list |-> c.list, jar |-> c.jar, body |-> b] IN
  CASE e \in {"text", "gen"} -> Full(c.tag \o "/" \o c.kept)
    [] e = "empty" -> Full("")
    [] e \in {"raise", "return"} -> [Bare(250, c.tag) EXCEPT !.hdr = <<"own">>]
    [] e = "crash" -> Bare(500, "page") [] e = "abort" -> Bare(404, "page")
    [] e = "redirect" -> [Full("to " \o c.tag) EXCEPT !.status = 303]
    [] OTHER -> Bare(206, "file of " \o c.tag)
(* events of one recording in order; st: per thread the stack of [a, c] *)
Depth(s, a) == CHOOSE d \in 1..Len(s) : s[d].a = a
Step(st, e) ==
  LET s == st[e.t] IN
  CASE e.k = "call" -> [st EXCEPT ![e.t] = Append(s, [a |-> e.a, c |-> Fresh(e.tag)])]
    [] e.k = "write" -> [st EXCEPT ![e.t][Len(s)].c = Put(@, e.w, e.tag)]
    [] e.k = "ret" -> [st EXCEPT ![e.t] = SubSeq(s, 1, Len(s) - 1)]
    [] OTHER -> st
Fits(st, e) ==
  LET s == st[e.t] IN
  CASE e.k = "read" -> IF Shows(s[Depth(s, e.a)].c) = e.saw THEN "" ELSE "a-handler-saw-something-else"
    [] e.k = "copy" -> IF e.saw.before = Shows(Top(s).c) /\ e.saw.after = Shows(Top(s).c) /\ e.saw.copy = Top(s).c.tag THEN "" ELSE "a-copy-changed-the-original"
    [] e.k = "ret" -> LET w == Reply(Top(s).c, e.w) IN
         FirstFail(<< <<e.saw.status = w.status, "another-status">>, <<e.saw.hdr = w.hdr, "another-header">>, <<e.saw.list = w.list, "other-header-values">>,
                      <<ToSet(e.saw.jar) = w.jar, "other-cookies">>, <<e.saw.body = w.body, "another-body">> >>)
    [] OTHER -> ""
RECURSIVE Walk(_, _, _)
Walk(st, es, k) == IF k > Len(es) THEN "" ELSE LET f == Fits(st, es[k]) IN IF f # "" THEN f \o " at event " \o ToString(k) ELSE Walk(Step(st, es[k]), es, k + 1)
Why(o) == Walk([t \in 1..3 |-> << >>], o.e, 1)
JInit == stack = [t \in T |-> << >>] /\ store = [x \in A \X T |-> None] /\ ghost = [t \in T |-> << >>] /\ n = 0 /\ ev = << >> /\ i = 1
JNext == i < Len(In) /\ i' = i + 1 /\ UNCHANGED <<stack, store, ghost, n, ev>>
JEmit == Out([i |-> i, why |-> Why(In[i])])
=============================================================================

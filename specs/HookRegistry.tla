--------------------------- MODULE HookRegistry ---------------------------
(* C03: which request hooks run in which request, over the life of an application.

   Hooks are added and removed between requests; a hook may also take itself off the list while it
   runs ("once"), or fail.  A request runs the before-hooks registered when it starts, in registration
   order, up to the first that fails; then the handler (when nothing failed and the path has a route);
   then every after-hook in reverse order.                                                            *)
EXTENDS VF
Depth == EnvInt("DEPTH")
VARIABLES hist, before, after, log, i

Hook(o) == [id |-> o.id, mode |-> o.mode]
Without(q, id) == SelectSeq(q, LAMBDA h : h.id # id)
NotOnce(q, ran) == SelectSeq(q, LAMBDA h : ~(h.mode = "once" /\ h.id \in ran))
RECURSIVE UpToFail(_)
UpToFail(q) == IF q = << >> THEN << >> ELSE IF q[1].mode = "fail" THEN <<q[1]>> ELSE <<q[1]>> \o UpToFail(Tail(q))
Ids(q) == [k \in 1..Len(q) |-> q[k].id]
Failed(q) == q # << >> /\ q[Len(q)].mode = "fail"

(* [b, a, log]: the lists after the request and the identifiers in the order they ran (0: the handler) *)
Serve(b, a, target) ==
  LET rb == UpToFail(b)
      ra == UpToFail(Reverse(a))
      hd == IF Failed(rb) \/ target # "hit" THEN << >> ELSE <<0>>
  IN [b |-> NotOnce(b, Range(Ids(rb))), a |-> NotOnce(a, Range(Ids(ra))), log |-> Ids(rb) \o hd \o Ids(ra),
      code |-> IF Failed(rb) \/ Failed(ra) THEN 500 ELSE IF target = "hit" THEN 200 ELSE 404]

Step(b, a, o) ==
  CASE o.op = "before" -> [b |-> Append(b, Hook(o)), a |-> a, log |-> << >>, code |-> 0]
    [] o.op = "after" -> [b |-> b, a |-> Append(a, Hook(o)), log |-> << >>, code |-> 0]
    [] o.op = "remove" -> [b |-> Without(b, o.id), a |-> Without(a, o.id), log |-> << >>, code |-> 0]
    [] o.op = "serve" -> Serve(b, a, o.mode)

Op(op, id, mode) == [op |-> op, id |-> id, mode |-> mode]
Fresh == 1 + Cardinality({k \in 1..Len(hist) : hist[k].op \in {"before", "after"}})
Ops == {Op(k, Fresh, m) : k \in {"before", "after"}, m \in {"keep", "once", "fail"}}
       \cup {Op("remove", before[k].id, "") : k \in 1..Len(before)} \cup {Op("remove", after[k].id, "") : k \in 1..Len(after)}
       \cup {Op("serve", 0, t) : t \in {"hit", "miss"}}
(* the last operation is a request; no two requests before the first hook *)
Allowed(o) == /\ (Len(hist) = Depth - 1 => o.op = "serve")
              /\ (hist = << >> => o.op # "serve")
              /\ (o.op \in {"before", "after"} => Len(before) + Len(after) < 4)
Init == hist = << >> /\ before = << >> /\ after = << >> /\ log = << >> /\ i = 0
Next == /\ Len(hist) < Depth
        /\ \E o \in Ops : /\ Allowed(o)
                          /\ LET r == Step(before, after, o) IN
                             /\ before' = r.b /\ after' = r.a /\ hist' = Append(hist, o)
                             /\ log' = IF o.op = "serve" THEN Append(log, [log |-> r.log, code |-> r.code]) ELSE log
        /\ UNCHANGED i
(* every registered before-hook runs once and in order unless one before it failed; after-hooks in reverse *)
Ordered == \A k \in 1..Len(log) : \A x, y \in 1..Len(log[k].log) : x # y => log[k].log[x] # log[k].log[y]
Emit == Len(hist) = Depth => Out([ops |-> hist, res |-> log])

RECURSIVE Run(_, _, _)
Run(b, a, ops) == IF ops = << >> THEN << >>
                  ELSE LET r == Step(b, a, ops[1]) IN
                       (IF ops[1].op = "serve" THEN <<[log |-> r.log, code |-> r.code]>> ELSE << >>) \o Run(r.b, r.a, Tail(ops))
JInit == i = 1 /\ hist = << >> /\ before = << >> /\ after = << >> /\ log = << >>
JNext == i < Len(In) /\ i' = i + 1 /\ UNCHANGED <<hist, before, after, log>>
JEmit == Out([i |-> i, r |-> Run(<< >>, << >>, In[i].ops)])
=============================================================================

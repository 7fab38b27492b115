---------------------------- MODULE RequestView ----------------------------
(* C10 / C15 / C18: a request object is a view of its environ.

   Whatever was read before, every read shows the present environ of that very object.  Assigning to a
   key of a request (or deleting it) changes that object only; a copy starts with the same contents and
   is on its own from then on; a request of another application served inside a handler starts afresh.

   Values are the numbers of the operations that wrote them, 0 stands for what the client sent and -1 for
   "not there".  A listener of an object (op "on") is told of the changes of that object, and no copy has it.
   in = -2: the body is still in the server's stream, which two objects share: unspecified. *)
EXTENDS VF
Depth == EnvInt("DEPTH")
MaxObj == EnvInt("MAXOBJ")
Nest == EnvInt("NEST")
Listen == EnvInt("LISTEN")
VARIABLES hist, objs, log, i

Keys == {"cookie", "query", "in", "hdr", "attr"}
Views == {"cookies", "query", "params", "forms", "headers", "attr"}
Fresh == [cookie |-> 0, query |-> 0, in |-> 0, hdr |-> 0, attr |-> -1, rd |-> FALSE, lock |-> FALSE, lis |-> 0]
Op(op, o, key) == [op |-> op, o |-> o, key |-> key]

NeedsBody(v) == v \in {"params", "forms", "body"}
Show(x, v) == CASE v \in {"cookies", "get_cookie"} -> <<x.cookie>>
                [] v \in {"query", "qs"} -> <<x.query>>
                [] v \in {"forms", "body", "POST"} -> <<x.in>>
                [] v = "params" -> <<x.query, x.in>>
                [] v \in {"headers", "env"} -> <<x.hdr>>
                [] v = "attr" -> <<x.attr>>
Specified(x, v) == v \in {"params", "forms", "body", "POST"} => x.in # -2

(* the n-th operation *)
Step(s, o, n) ==
  LET x == s[o.o] IN
  CASE o.op = "set" -> IF x.lock /\ o.key # "attr" THEN s
                       ELSE [s EXCEPT ![o.o] = [[@ EXCEPT ![o.key] = n] EXCEPT !.rd = IF o.key = "in" THEN FALSE ELSE @]]
    [] o.op = "del" -> IF x.lock THEN s ELSE [s EXCEPT ![o.o] = [@ EXCEPT ![o.key] = -1]]
    [] o.op = "lock" -> [s EXCEPT ![o.o] = [@ EXCEPT !.lock = TRUE]]
    [] o.op = "on" -> [s EXCEPT ![o.o].lis = @ + 1]
    [] o.op = "copy" -> LET y == IF x.rd THEN x ELSE [x EXCEPT !.in = -2] IN Append([s EXCEPT ![o.o] = y], [y EXCEPT !.lis = 0])
    [] o.op = "nest" -> Append(s, Fresh)
    [] o.op = "read" -> IF o.key \in {"params", "forms", "body", "POST"} THEN [s EXCEPT ![o.o].rd = TRUE] ELSE s
Sees(s, o) == IF o.op = "read" THEN Show(s[o.o], o.key)
              ELSE IF o.op \in {"set", "del"} /\ s[o.o].lock /\ o.key # "attr" THEN <<-9>>      \* refused
              ELSE IF o.op \in {"set", "del"} /\ o.key # "attr" /\ s[o.o].lis > 0 THEN <<s[o.o].lis>>    \* listeners told
              ELSE << >>
Ok(s, o) == /\ o.op = "read" => Specified(s[o.o], o.key)
            /\ o.op = "del" => o.key \in {"cookie", "query", "hdr"} /\ s[o.o][o.key] # -1
            /\ o.op \in {"copy", "nest"} => Len(s) < MaxObj
            /\ o.op = "nest" => Nest = 1
            /\ o.op = "on" => Listen = 1
            /\ o.op = "lock" => ~s[o.o].lock

Ops == UNION {{Op("set", k, q) : q \in Keys} \cup {Op("del", k, q) : q \in {"cookie", "query", "hdr"}}
              \cup {Op("read", k, v) : v \in Views} \cup {Op("copy", k, ""), Op("nest", k, ""), Op("on", k, "")} : k \in 1..Len(objs)}
Init == hist = << >> /\ objs = <<Fresh>> /\ log = << >> /\ i = 0
Next == /\ Len(hist) < Depth
        /\ \E o \in Ops : /\ Ok(objs, o)
                          /\ (o.op = "nest" => o.o = 1)
                          /\ hist' = Append(hist, o) /\ objs' = Step(objs, o, Len(hist) + 1)
                          /\ log' = Append(log, Sees(objs, o))
        /\ UNCHANGED i
(* an operation on one object leaves the others alone *)
Apart == [][\A k \in 1..Len(objs) : LET o == hist'[Len(hist')] IN o.o # k => objs'[k] = objs[k]]_<<hist, objs, log>>
(* every read is of the last write to that object, or of what it started with *)
Final(s) == [k \in 1..Len(s) |-> [s[k] EXCEPT !.in = IF @ = -2 THEN -2 ELSE @]]
Emit == Len(hist) = Depth => Out([ops |-> hist, res |-> log, fin |-> Final(objs)])

RECURSIVE Run(_, _, _)
Run(s, ops, n) == IF n > Len(ops) THEN [res |-> << >>, fin |-> Final(s), ok |-> TRUE]
                  ELSE IF ~Ok(s, ops[n]) THEN [res |-> << >>, fin |-> Final(s), ok |-> FALSE]
                  ELSE LET r == Run(Step(s, ops[n], n), ops, n + 1) IN [r EXCEPT !.res = <<Sees(s, ops[n])>> \o @]
JInit == i = 1 /\ hist = << >> /\ objs = << >> /\ log = << >>
JNext == i < Len(In) /\ i' = i + 1 /\ UNCHANGED <<hist, objs, log>>
JEmit == Out([i |-> i, r |-> Run(<<Fresh>>, In[i].ops, 1)])
=============================================================================

------------------------------ MODULE Settings ------------------------------
(* C10: every application of a process has settings, routes, hooks and error handlers of its own.

   What an application answers follows from the operations on that application alone: the settings it was
   constructed (or set up again) with over the defaults, and what was registered with it.  SHARE names the
   ways applications could reach into each other; each of them is refuted by Own.                        *)
EXTENDS VF
Depth == EnvInt("DEPTH")
Share == IOEnv.SHARE
NApps == EnvInt("APPS")
VARIABLES hist, apps, own, i

Default == [max |-> -1, mem |-> 102400, debug |-> 0, catch |-> 1, emap |-> 0, xsn |-> 0, dom |-> 0]
Fields == DOMAIN Default
Over(base, cfg) == [f \in Fields |-> IF Has(cfg, f) THEN cfg[f] ELSE base[f]]
None == [cfg |-> Default, routes |-> {}, hooks |-> << >>, eh |-> 0, live |-> FALSE]
Fresh(cfg, base) == [cfg |-> Over(base, cfg), routes |-> {}, hooks |-> << >>, eh |-> 0, live |-> TRUE]

(* one operation on one application; base: the defaults in force *)
Act(x, o, base) ==
  CASE o.op = "new" -> Fresh(o.cfg, base)
    [] o.op = "setup" -> [x EXCEPT !.cfg = Over(base, o.cfg)]
    [] o.op = "route" -> [x EXCEPT !.routes = @ \cup {o.n}]
    [] o.op = "unroute" -> [x EXCEPT !.routes = @ \ {o.n}]
    [] o.op = "hook" -> [x EXCEPT !.hooks = Append(@, o.n)]
    [] o.op = "unhook" -> [x EXCEPT !.hooks = SelectSeq(@, LAMBDA h : h # o.n)]
    [] o.op = "error" -> [x EXCEPT !.eh = o.n]
    [] o.op = "ask" -> x

(* the reply: status (0: the failure reaches the server), what is shown, the hooks that ran *)
Size(c, n) == (c.max # -1 /\ n > c.max)
Answer(x, o) ==
  LET c == x.cfg
      tooBig == IF c.emap = 1 THEN 431 ELSE 413
      r(code, shows) == [code |-> code, shows |-> shows, hooks |-> x.hooks, eh |-> x.eh]
  IN CASE o.ask = "post" -> IF Size(c, o.n) THEN r(tooBig, "") ELSE r(200, "all")
       [] o.ask = "form" -> IF Size(c, o.n) \/ o.n > c.mem THEN r(tooBig, "") ELSE r(200, "all")
       [] o.ask = "chunk" -> r(IF c.emap = 1 THEN 432 ELSE 400, "")
       [] o.ask = "crash" -> r(500, IF c.debug = 1 THEN "trace" ELSE "")
       [] o.ask = "critical" -> IF c.catch = 1 THEN r(500, IF c.debug = 1 THEN "trace" ELSE "") ELSE r(0, "")
       [] o.ask = "url" -> r(200, IF c.xsn = 1 THEN "/mnt/s10/url" ELSE "/s10/url")
       [] o.ask = "mount" -> r(200, IF c.dom = 1 THEN "/one/s10/mount /s10/mount" ELSE "/s10/mount /s10/mount")
       [] o.ask = "other" -> r(200, "/s10/other /s10/other")
       [] o.ask = "route" -> IF o.n \in x.routes THEN r(200, "all") ELSE r(404, IF x.eh = 0 THEN "" ELSE "handled")

Op(op, a, n, cfg, ask) == [op |-> op, a |-> a, n |-> n, cfg |-> cfg, ask |-> ask]
Nil == [zz |-> 0]                       \* no setting
Cfgs == {Nil, [max |-> 40], [max |-> 200, debug |-> 1], [mem |-> 60, emap |-> 1], [xsn |-> 1, dom |-> 1], [catch |-> 0]}
Asks == {<<"post", 100>>, <<"form", 100>>, <<"chunk", 0>>, <<"crash", 0>>, <<"critical", 0>>, <<"url", 0>>, <<"mount", 0>>, <<"route", 1>>}
Allowed(o) ==
  /\ (o.op = "new") = ~apps[o.a].live
  /\ o.op = "new" => (IF o.a = 1 THEN TRUE ELSE apps[o.a - 1].live)
  /\ o.op = "ask" => Len(hist) = Depth - 1
  /\ Len(hist) = Depth - 1 => o.op = "ask"
  /\ o.op = "hook" => \A k \in 1..Len(apps[o.a].hooks) : apps[o.a].hooks[k] # o.n
  /\ o.op = "unhook" => \E k \in 1..Len(apps[o.a].hooks) : apps[o.a].hooks[k] = o.n
  /\ o.op = "unroute" => o.n \in apps[o.a].routes
Ops == UNION {{Op("new", a, 0, c, "") : c \in Cfgs} \cup {Op("setup", a, 0, c, "") : c \in Cfgs}
              \cup {Op(k, a, 1, Nil, "") : k \in {"route", "unroute", "hook", "unhook", "error"}}
              \cup {Op("ask", a, q[2], Nil, q[1]) : q \in Asks} : a \in 1..NApps}

(* how a shared object would show *)
Latest == IF \E k \in 1..Len(hist) : hist[k].op = "new" /\ hist[k].cfg # Nil
          THEN LET k == CHOOSE k \in 1..Len(hist) : hist[k].op = "new" /\ hist[k].cfg # Nil /\ \A j \in (k + 1)..Len(hist) : ~(hist[j].op = "new" /\ hist[j].cfg # Nil) IN hist[k].cfg
          ELSE Nil
Spill(s, o) ==
  CASE Share = "defaults" /\ o.op \in {"new", "setup"} /\ o.cfg = Nil -> [s EXCEPT ![o.a] = Act(@, o, Over(Default, Latest))]
    [] Share = "setup" /\ o.op = "setup" -> [a \in 1..NApps |-> IF s[a].live THEN Act(s[a], o, Default) ELSE s[a]]
    [] Share = "hooks" /\ o.op \in {"hook", "unhook"} -> [a \in 1..NApps |-> IF s[a].live THEN Act(s[a], o, Default) ELSE s[a]]
    [] Share = "handlers" /\ o.op = "error" -> [a \in 1..NApps |-> IF s[a].live THEN Act(s[a], o, Default) ELSE s[a]]
    [] OTHER -> [s EXCEPT ![o.a] = Act(@, o, Default)]

Init == hist = << >> /\ apps = [a \in 1..NApps |-> None] /\ own = apps /\ i = 0
Next == /\ Len(hist) < Depth
        /\ \E o \in Ops : /\ Allowed(o)
                          /\ hist' = Append(hist, o) /\ apps' = Spill(apps, o)
                          /\ own' = [own EXCEPT ![o.a] = Act(@, o, Default)]
        /\ UNCHANGED i
View == <<hist, apps>>
Own == apps = own
Emit == Len(hist) = Depth => Out([ops |-> hist, res |-> Answer(apps[hist[Depth].a], hist[Depth])])

RECURSIVE Run(_, _)
Run(s, ops) == IF ops = << >> THEN << >>
               ELSE (IF ops[1].op = "ask" THEN <<Answer(s[ops[1].a], ops[1])>> ELSE << >>)
                    \o Run([s EXCEPT ![ops[1].a] = Act(@, ops[1], Default)], Tail(ops))
JInit == i = 1 /\ hist = << >> /\ apps = << >> /\ own = << >>
JNext == i < Len(In) /\ i' = i + 1 /\ UNCHANGED <<hist, apps, own>>
JEmit == Out([i |-> i, r |-> Run([a \in 1..NApps |-> None], In[i].ops)])
=============================================================================

------------------------------ MODULE PartFile ------------------------------
(* C07: the uploads of one body as files.  All of them (and the body itself) are windows on one stored
   body; each is read, positioned and saved in any order without seeing bytes of another part and
   without moving another one's position.

   A reader: [v |-> its bytes, pos |-> bytes before the position, 0..Len(v)].
   Operations: read n bytes (n < 0: the rest), seek (whence 0, 1, 2; to a place inside), tell, save
   (what is left is copied, in pieces of any size; the position stays), saveall (after going to the
   start), body (the raw body is read from its start: its length is what shows), wild (a seek to a place
   outside: where that ends is not specified, but nothing outside shows), close (what the closed one
   does is not specified, the others and the body do not notice).
   In the answers <<Piece>> is any piece of the file's own bytes and <<Whatever>> is anything.            *)
EXTENDS VF
Depth == EnvInt("DEPTH")
VARIABLES hist, fs, log, i
Piece == -1
Whatever == -2

(* pos -1: not known; shut: closed *)
File(v) == [v |-> v, pos |-> 0, shut |-> FALSE]
Op(op, f, a, b) == [op |-> op, f |-> f, a |-> a, b |-> b]
Lost(x) == x.shut \/ x.pos < 0
Left(x) == IF x.pos < 0 THEN << >> ELSE Drop(x.v, x.pos)
Target(x, o) == CASE o.b = 0 -> o.a [] o.b = 1 -> x.pos + o.a [] OTHER -> Len(x.v) + o.a
Inside(x, o) == /\ o.op = "seek" => (o.b = 1 /\ x.pos < 0) \/ Target(x, o) \in 0..Len(x.v)
                /\ o.op = "wild" => (o.b = 1 /\ x.pos < 0) \/ Target(x, o) \notin 0..Len(x.v)
Step(x, o) ==
  CASE o.op = "body" -> [x |-> x, out |-> << >>]
    [] o.op = "close" -> [x |-> [x EXCEPT !.shut = TRUE], out |-> <<Whatever>>]
    [] x.shut -> [x |-> x, out |-> IF o.op \in {"read", "save", "saveall"} THEN <<Piece>> ELSE <<Whatever>>]
    [] o.op = "wild" -> [x |-> [x EXCEPT !.pos = -1], out |-> <<Whatever>>]
    [] o.op = "seek" -> IF o.b = 1 /\ x.pos < 0 THEN [x |-> x, out |-> <<Whatever>>]
                        ELSE [x |-> [x EXCEPT !.pos = Target(x, o)], out |-> <<Target(x, o)>>]
    [] o.op = "saveall" -> [x |-> [x EXCEPT !.pos = 0], out |-> x.v]
    [] o.op = "read" -> IF Lost(x) THEN [x |-> [x EXCEPT !.pos = -1], out |-> <<Piece>>]
                        ELSE LET d == IF o.a < 0 THEN Left(x) ELSE Take(Left(x), o.a) IN [x |-> [x EXCEPT !.pos = @ + Len(d)], out |-> d]
    [] o.op = "tell" -> [x |-> x, out |-> IF Lost(x) THEN <<Whatever>> ELSE <<x.pos>>]
    [] o.op = "save" -> [x |-> x, out |-> IF Lost(x) THEN <<Piece>> ELSE Left(x)]

Vals == << <<1, 2>>, <<3, 4, 5>> >>
Ops == UNION {{Op("read", k, n, 0) : n \in {-1, 0, 1, 9}} \cup {Op("seek", k, a, 0) : a \in {0, 1}} \cup {Op("seek", k, -1, 1), Op("seek", k, 1, 1), Op("seek", k, -1, 2)}
              \cup {Op("tell", k, 0, 0), Op("save", k, 2, 0), Op("saveall", k, 1, 0), Op("body", k, 0, 0), Op("wild", k, -1, 0), Op("wild", k, -9, 1), Op("wild", k, 9, 2), Op("close", k, 0, 0)} : k \in 1..Len(Vals)}
Init == hist = << >> /\ fs = [k \in 1..Len(Vals) |-> File(Vals[k])] /\ log = << >> /\ i = 0
Next == /\ Len(hist) < Depth
        /\ \E o \in Ops : /\ Inside(fs[o.f], o)
                          /\ LET r == Step(fs[o.f], o) IN fs' = [fs EXCEPT ![o.f] = r.x] /\ log' = Append(log, r.out)
                          /\ hist' = Append(hist, o)
        /\ UNCHANGED i
Own == \A k \in 1..Len(hist) : hist[k].op \in {"read", "save", "saveall"} => ToSet(log[k]) \subseteq ToSet(Vals[hist[k].f]) \cup {Piece}
Within == \A k \in 1..Len(fs) : fs[k].pos \in -1..Len(fs[k].v)
Emit == Len(hist) = Depth => Out([ops |-> hist, res |-> log])

RECURSIVE Run(_, _)
Run(s, ops) == IF ops = << >> \/ ~Inside(s[ops[1].f], ops[1]) THEN << >>
               ELSE LET r == Step(s[ops[1].f], ops[1]) IN <<r.out>> \o Run([s EXCEPT ![ops[1].f] = r.x], Tail(ops))
JInit == i = 1 /\ hist = << >> /\ fs = << >> /\ log = << >>
JNext == i < Len(In) /\ i' = i + 1 /\ UNCHANGED <<hist, fs, log>>
JEmit == Out([i |-> i, r |-> Run([k \in 1..Len(In[i].v) |-> File(In[i].v[k])], In[i].ops)])
=============================================================================

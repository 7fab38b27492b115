----------------------------- MODULE StaticPath -----------------------------
(* C16: static_file and its root.  A requested name is a sequence of characters; the receiver strips slashes and
   backslashes at both ends, appends the name to the root and walks the segments lexically.
   Letters stand for names: t and v are the two directories above the tree.

     /t/v/f   /t/v/rf   /t/v/a/f   /t/v/ra/f   /t/v/ra/a/f   /t/v/r/f   /t/v/r/a/f   /t/v/r/a/r (file)
     /t/v/r/"r\f"  (a backslash is an ordinary character of a name)                                      *)
EXTENDS VF

SL == "/"  BS == "\\"  DOT == "."
Tree == {"t", "v"}
Files == { << <<"t">>, <<"v">>, <<"f">> >>, << <<"t">>, <<"v">>, <<"r", "f">> >>, << <<"t">>, <<"v">>, <<"a">>, <<"f">> >>,
           << <<"t">>, <<"v">>, <<"r", "a">>, <<"f">> >>, << <<"t">>, <<"v">>, <<"r", "a">>, <<"a">>, <<"f">> >>,
           << <<"t">>, <<"v">>, <<"r">>, <<"f">> >>, << <<"t">>, <<"v">>, <<"r">>, <<"a">>, <<"f">> >>,
           << <<"t">>, <<"v">>, <<"r">>, <<"a">>, <<"r">> >>, << <<"t">>, <<"v">>, <<"r">>, <<"r", BS, "f">> >> }
Roots == << << <<"t">>, <<"v">>, <<"r">> >>, << <<"t">>, <<"v">>, <<"r">>, <<"a">> >>, << <<"t">>, <<"v">>, <<"a">> >>,
            << <<"t">>, <<"v">>, <<"x">> >> >>                              \* the last one does not exist

Ends == {SL, BS}
RECURSIVE StripL(_), StripR(_)
StripL(s) == IF s # << >> /\ s[1] \in Ends THEN StripL(Tail(s)) ELSE s
StripR(s) == IF s # << >> /\ s[Len(s)] \in Ends THEN StripR(Take(s, Len(s) - 1)) ELSE s
Strip(s) == StripR(StripL(s))
Segments(s) == LET f == FoldLeft(LAMBDA a, c : IF c = SL THEN [a EXCEPT !.done = Append(@, a.cur), !.cur = << >>] ELSE [a EXCEPT !.cur = Append(@, c)],
                                 [done |-> << >>, cur |-> << >>], s)
               IN Append(f.done, f.cur)
(* one step of the walk *)
Walk(loc, seg) == IF seg = << >> \/ seg = <<DOT>> THEN loc
                  ELSE IF seg = <<DOT, DOT>> THEN IF loc = << >> THEN loc ELSE Take(loc, Len(loc) - 1)
                  ELSE Append(loc, seg)
Location(root, s) == FoldLeft(Walk, root, Segments(Strip(s)))
Inside(root, loc) == Len(loc) > Len(root) /\ Take(loc, Len(root)) = root
(* "serve": this file or nothing;  "deny": 403 or 404, and nothing outside the root is opened *)
Verdict(root, s) == LET loc == Location(root, s) IN IF Inside(root, loc) /\ loc \in Files THEN "serve" ELSE "deny"
(* spelled without detours: the file has to be served *)
Straight(s) == s = Strip(s) /\ \A k \in 1..Len(Segments(s)) : Segments(s)[k] \notin { << >>, <<DOT>>, <<DOT, DOT>> }

(* ------------------------------ generation ------------------------------- *)
Tokens == { <<"f">>, <<"a">>, <<"r">>, <<DOT, DOT>>, <<DOT>>, <<SL>>, <<BS>>, <<DOT, DOT, SL>>, <<SL, "t", SL, "v", SL>>, <<"v">>, <<"r", "a", SL, "f">>, <<SL, DOT, DOT, SL>> }
Seeds == { << >>, <<DOT, DOT, SL, DOT, DOT, SL, DOT, DOT, SL>>, <<"a", SL, DOT, DOT, SL>>, <<BS, DOT, DOT, SL>>, <<SL, "t", SL, "v", SL>>, <<DOT, DOT, SL, "r">> }
MaxTok == EnvInt("MAXTOK")
VARIABLES s, n, i
Init == s \in Seeds /\ n = 0 /\ i = 0
Next == n < MaxTok /\ \E t \in Tokens : s' = s \o t /\ n' = n + 1 /\ UNCHANGED i
(* the walk agrees with counting: a location is outside as soon as some prefix of the walk left the root for good *)
Depth(root, segs, k) == FoldLeft(LAMBDA d, x : IF x \in { << >>, <<DOT>> } THEN d ELSE IF x = <<DOT, DOT>> THEN Max2(0, d - 1) ELSE d + 1, Len(root), Take(segs, k))
Counts == \A r \in 1..Len(Roots) :
   LET root == Roots[r]  segs == Segments(Strip(s))  loc == Location(root, s)
       low == IF \E k \in 0..Len(segs) : Depth(root, segs, k) < Len(root) THEN TRUE ELSE FALSE
   IN /\ Len(loc) = Depth(root, segs, Len(segs))
      /\ ~low => Take(loc, Len(root)) = root              \* never below the root: stays inside (or is the root itself)
      /\ (Inside(root, loc) /\ low) => \E k \in 1..Len(segs) : segs[k] = root[Len(root)]   \* back in only through the root's own name
(* no strict prefix of the root's name lets a sibling in *)
Sibling == \A r \in 1..Len(Roots) : Verdict(Roots[r], s) = "serve" => Take(Location(Roots[r], s), Len(Roots[r])) = Roots[r]
Emit == Out([s |-> s, v |-> [r \in 1..Len(Roots) |-> IF Verdict(Roots[r], s) = "serve" THEN Location(Roots[r], s) ELSE << >>], w |-> Straight(s)])

(* -------------------------------- judge ---------------------------------- *)
(* o = [root, s, status, file (segments of the file whose content was delivered, empty if none), opened (locations opened)] *)
Why(o) ==
  LET root == Roots[o.root]  loc == Location(root, o.s)  v == Verdict(root, o.s) IN
  IF \E k \in 1..Len(o.opened) : ~Inside(root, o.opened[k]) THEN "opened-outside-the-root"
  ELSE IF v = "deny" /\ o.status \notin {403, 404} THEN "not-denied"
  ELSE IF v = "serve" /\ o.status \notin {200, 206, 304, 416, 403, 404} THEN "unexpected-status"
  ELSE IF o.status \in {200, 206} /\ o.file # loc THEN "other-file"
  ELSE IF v = "serve" /\ Straight(o.s) /\ ~o.lax /\ o.status \in {403, 404} THEN "denied-inside-the-root"
  ELSE ""
JInit == s = << >> /\ n = 0 /\ i = 1
JNext == i < Len(In) /\ i' = i + 1 /\ UNCHANGED <<s, n>>
JEmit == Out([i |-> i, why |-> Why(In[i])])
=============================================================================

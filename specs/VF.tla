-------------------------------- MODULE VF --------------------------------
(* Shared plumbing: judged input, emitted verdicts, small helpers. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils, SequencesExt

In == ndJsonDeserialize(IOEnv.IN)
Out(rec) == CSVWrite("%1$s", <<ToJson(rec)>>, IOEnv.OUT)

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Sub(s, a, b) == IF b < a THEN << >> ELSE SubSeq(s, a, b)
Drop(s, n) == Sub(s, n + 1, Len(s))
Take(s, n) == Sub(s, 1, Min2(n, Len(s)))
StartsAt(s, i, t) == i + Len(t) - 1 <= Len(s) /\ Sub(s, i, i + Len(t) - 1) = t
Has(r, f) == f \in DOMAIN r
EnvInt(name) == atoi(IOEnv[name])
(* the first failing clause of a sequence of <<holds, name>> *)
RECURSIVE FirstFail(_)
FirstFail(cs) == IF cs = << >> THEN "" ELSE IF cs[1][1] THEN FirstFail(Tail(cs)) ELSE cs[1][2]
=============================================================================

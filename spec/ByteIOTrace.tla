----------------------------- MODULE ByteIOTrace -----------------------------
(***************************************************************************)
(* Checks recorded calls of the library against ByteIO.tla: a trace is     *)
(* [dir, total, calls, result, same]. Every call is [asked, answer, bytes]. *)
(* total is the number of bytes of the stream that is read, or 0; same     *)
(* says that the content that came out is the one that went in.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t,       \* the trace
          i,       \* the call
          pos,     \* bytes that were given or taken
          failed,  \* an error was reported, nothing was taken, or the stream ended too early
          bad      \* number of traces that were rejected
vars == <<t, i, pos, failed, bad>>
Init == t = 1 /\ i = 1 /\ pos = 0 /\ failed = FALSE /\ bad = 0

Asked(c) == c[1]
Answer(c) == c[2]
Bytes(c) == c[3]
\* The contracts of the streams.
Allowed(r, c) ==
  CASE Answer(c) = "data" -> Bytes(c) >= 1 /\ Bytes(c) <= Asked(c) /\ (r.dir = "read" => pos + Bytes(c) <= r.total)
    [] Answer(c) = "interrupted" -> Bytes(c) = 0
    [] Answer(c) = "error" -> Bytes(c) = 0
    [] Answer(c) = "zero" -> r.dir = "write" /\ Bytes(c) = 0
    [] Answer(c) = "end" -> r.dir = "read" /\ Bytes(c) = 0
    [] OTHER -> FALSE
Call ==
  /\ t <= Len(Trace) /\ i <= Len(Trace[t].calls)
  /\ LET r == Trace[t]
         c == r.calls[i]
     IN /\ IF Allowed(r, c) THEN TRUE ELSE PrintT(ToJson([broken |-> t, call |-> i]))
        /\ pos' = pos + Bytes(c)
        /\ failed' = (failed \/ Answer(c) \in {"error", "zero"} \/ (Answer(c) = "end" /\ pos < r.total))
  /\ i' = i + 1 /\ UNCHANGED <<t, bad>>
\* What the result has to be.
Good(r) == IF failed THEN r.result = "error"
           ELSE r.result = "ok" /\ r.same /\ (r.dir = "read" => pos = r.total)
Result ==
  /\ t <= Len(Trace) /\ i > Len(Trace[t].calls)
  /\ LET r == Trace[t] IN
     IF Good(r) THEN bad' = bad
     ELSE bad' = bad + 1 /\ PrintT(ToJson([rejected |-> t, case |-> r.case, pos |-> pos, failed |-> failed, result |-> r.result]))
  /\ t' = t + 1 /\ i' = 1 /\ pos' = 0 /\ failed' = FALSE
Next == Call \/ Result
Spec == Init /\ [][Next]_vars
Report == t > Len(Trace) => PrintT(ToJson([accepted |-> Len(Trace) - bad, of |-> Len(Trace)]))
=============================================================================

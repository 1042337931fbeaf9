-------------------------------- MODULE ByteIO --------------------------------
(***************************************************************************)
(* Opening and saving over streams that obey the contracts of Read and     *)
(* Write: a stream takes or gives at least one byte and at most what was   *)
(* asked for, can report an interruption instead, after which the call is  *)
(* made again, can fail, and can end; a writer can also take nothing.      *)
(*                                                                         *)
(* A reader gets parts of known sizes and then the rest, up to the end of  *)
(* the stream. A writer puts buffers. Bytes are the numbers 1..Total.      *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Family,     \* "free", "rule", "points", "walk"
          Sizes,      \* of the parts that are read, or the buffers that are written
          Rest,       \* bytes after the parts, when reading
          Near, Far   \* positions for "points"

SizesDef == <<2, 1, 3, 2>>
NearDef == 0..320
NearDeep == 0..2500
FarDef == 1..63

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Total(d) == IF d = "read" THEN Sum(Sizes) + Rest ELSE Sum(Sizes)
Buffer == 3 \* the reader asks for the rest in pieces of this size

(***************************************************************************)
(* A policy says what a stream does: it gives or takes chunks, and has one *)
(* event at a position.                                                    *)
(***************************************************************************)
Chunks == {1, 2, 3, 5, 16, 33, 1000, 0}  \* 0: everything
Events == {"none", "interrupted", "always interrupted", "error", "end", "zero"}
\* Whether an event at the position can be noticed: a reader asks once more
\* after the last byte, a writer does not.
Expected(d, e, at, total) ==
  CASE e \in {"none", "interrupted", "always interrupted"} -> "ok"
    [] e = "error" -> IF at < total \/ (d = "read" /\ at = total) THEN "error" ELSE "ok"
    [] e = "end" -> IF at < total THEN "error" ELSE "ok"
    [] e = "zero" -> IF at < total THEN "error" ELSE "ok"
EventsOf(d) == IF d = "read" THEN Events \ {"zero"} ELSE Events \ {"end"}

-----------------------------------------------------------------------------
VARIABLES dir,     \* "read" or "write"
          pol,     \* the policy: [chunk, event, at]
          end,     \* where the stream that is read ends
          seg,     \* the part or buffer at hand
          in,      \* bytes of it that were got or taken
          bytes,   \* what the reader has, or the stream took
          st,      \* "run", "ok", "error"
          ints,    \* interruptions since the last byte
          failed,  \* the stream reported an error, or took nothing
          case
vars == <<dir, pol, end, seg, in, bytes, st, ints, failed, case>>

pos == Len(bytes)
Parts == Len(Sizes)
Asked == IF seg <= Parts THEN Sizes[seg] - in ELSE Buffer
Next0(k) == \* k bytes, from position pos + 1
  /\ bytes' = bytes \o [i \in 1..k |-> pos + i]
  /\ ints' = 0
  /\ LET full == seg <= Parts /\ in + k = Sizes[seg]
     IN /\ seg' = IF full THEN seg + 1 ELSE seg
        /\ in' = IF full THEN 0 ELSE in + k
        /\ st' = IF dir = "write" /\ full /\ seg = Parts THEN "ok" ELSE "run"
  /\ UNCHANGED failed
Same == UNCHANGED <<seg, in, bytes>>
Min(a, b) == IF a < b THEN a ELSE b

Data(k) == /\ IF dir = "read" THEN pos + k <= end ELSE TRUE
           /\ k >= 1 /\ k <= Asked /\ Next0(k)
End == dir = "read" /\ pos = end /\ Same /\ UNCHANGED <<ints, failed>>
       /\ st' = IF seg <= Parts \/ pos # Total(dir) THEN "error" ELSE "ok"
Interrupt == Same /\ ints' = ints + 1 /\ UNCHANGED <<st, failed>>
Fail == Same /\ st' = "error" /\ failed' = TRUE /\ UNCHANGED ints
Zero == dir = "write" /\ Same /\ st' = "error" /\ failed' = TRUE /\ UNCHANGED ints

Free == Family = "free" /\ st = "run" /\ UNCHANGED <<dir, pol, end, case>> /\
  (\/ \E k \in 1..Asked : Data(k)
   \/ End \/ Fail \/ Zero
   \/ ints < 2 /\ Interrupt)

AtEvent == pos = pol.at
Planned == Family = "rule" /\ st = "run" /\ UNCHANGED <<dir, pol, end, case>> /\
  CASE pol.event = "interrupted" /\ AtEvent /\ ints < 2 -> Interrupt
    [] pol.event = "always interrupted" /\ ints < 1 -> Interrupt
    [] pol.event = "error" /\ AtEvent -> Fail
    [] pol.event = "zero" /\ AtEvent -> Zero
    [] dir = "read" /\ pos = end -> End
    [] OTHER -> LET most == IF pol.event \in {"error", "zero", "interrupted"} /\ pol.at > pos THEN pol.at - pos ELSE 1000
                    c == IF pol.chunk = 0 THEN 1000 ELSE pol.chunk
                    left == IF dir = "read" THEN end - pos ELSE 1000
                IN Data(Min(Min(most, c), Min(left, Asked)))

\* Cases for the library. The position is counted from the start or the end
\* of the real file, or is a part of its length.
Ops == {<<"read", o>> : o \in {"open plain", "open gzip", "open blocks", "key binary", "key hex", "key xml"}}
       \cup {<<"write", o>> : o \in {"save plain", "save gzip", "save key binary", "save key hex", "save key xml"}}
Errors == {"other", "would block", "broken pipe", "unexpected end", "invalid data"}
Places == {<<"start", p>> : p \in Near} \cup {<<"end", p>> : p \in Near} \cup {<<"part", p>> : p \in Far}
\* from "end", 0 is the position after the last byte
Case(o, c, e, pl, k) == [dir |-> o[1], op |-> o[2], chunk |-> c, event |-> e, from |-> pl[1], at |-> pl[2], kind |-> k,
                         \* from the start: if there are so many bytes
                         expect |-> IF pl[1] = "end" THEN Expected(o[1], e, 1000000 - pl[2], 1000000) ELSE Expected(o[1], e, pl[2], 1000000)]
Faults == {<<o, e, IF e = "end" THEN "" ELSE "other">> : o \in {o \in Ops : o[1] = "read"}, e \in {"error", "interrupted", "end"}}
          \cup {<<o, e, "other">> : o \in {o \in Ops : o[1] = "write"}, e \in {"error", "interrupted", "zero"}}
Some == {<<"start", 0>>, <<"start", 1>>, <<"start", 12>>, <<"start", 31>>, <<"start", 37>>, <<"end", 0>>, <<"end", 1>>, <<"end", 2>>, <<"end", 16>>, <<"part", 32>>}
\* Init of the cases.
Points ==
  \/ \E f \in Faults, pl \in Places : case = Case(f[1], 0, f[2], pl, f[3])
  \/ \E o \in Ops, c \in Chunks, k \in Errors, pl \in Some : case = Case(o, c, "error", pl, k)
  \/ \E o \in Ops, c \in Chunks, e \in {"none", "always interrupted"} : case = Case(o, c, e, <<"start", 0>>, "")
  \/ \E o \in Ops, c \in Chunks, pl \in Some : case = Case(o, c, "interrupted", pl, "")

\* Random answers, call by call; after them the stream works.
Answers == {<<"data", c>> : c \in {1, 2, 3, 4, 7, 8, 15, 16, 17, 32, 33, 64, 100, 500, 0}} \cup {<<"interrupted", 0>>}
FaultAnswers(d) == {<<"none", 0>>, <<"error", 0>>, <<"error", 1>>, <<"error", 2>>, <<"error", 3>>} \cup (IF d = "read" THEN {<<"end", 0>>} ELSE {<<"zero", 0>>, <<"zero", 1>>})
Walk == Family = "walk" /\ UNCHANGED <<dir, pol, end, seg, in, bytes, st, ints, failed>> /\
  \/ case.left > 0 /\ \E a \in {RandomElement(Answers)}, b \in {RandomElement(Answers)} :
       case' = [case EXCEPT !.left = @ - 1, !.answers = @ \o (IF case.left % 3 = 0 THEN <<a, a>> ELSE <<a, b>>)]
  \/ case.left = 0 /\ case.fault = <<>> /\ \E f \in {RandomElement(FaultAnswers(case.dir))} : case' = [case EXCEPT !.fault = f]

NoPol == [chunk |-> 0, event |-> "none", at |-> 0]
Init0 == seg = 1 /\ in = 0 /\ bytes = <<>> /\ ints = 0 /\ failed = FALSE
Init ==
  CASE Family = "free" -> \E d \in {"read", "write"}, e \in 0..Total("read") :
         dir = d /\ end = e /\ pol = NoPol /\ st = "run" /\ case = <<>> /\ Init0
    [] Family = "rule" -> \E d \in {"read", "write"}, c \in 0..4, at \in 0..(Total("read") + 1) : \E e \in EventsOf(d) :
         dir = d /\ end = (IF e = "end" THEN Min(at, Total(d)) ELSE Total(d)) /\ pol = [chunk |-> c, event |-> e, at |-> at] /\ st = "run" /\ case = <<>> /\ Init0
    [] Family = "points" -> Points /\ dir = "read" /\ end = 0 /\ pol = NoPol /\ st = "ok" /\ Init0
    [] Family = "walk" -> \E o \in Ops, l \in (1..12) \cup {16, 20, 25, 30, 35, 45, 60} : /\ case = [dir |-> o[1], op |-> o[2], answers |-> <<>>, fault |-> <<>>, left |-> l]
                                                /\ dir = "read" /\ end = 0 /\ pol = NoPol /\ st = "ok" /\ Init0
Next == Free \/ Planned \/ Walk
Spec == Init /\ [][Next]_vars /\ WF_vars(Planned) /\ WF_vars(Free /\ ints' # ints + 1)

-----------------------------------------------------------------------------
Machine == Family \in {"free", "rule"}
\* In order and once.
InOrder == bytes = [i \in 1..pos |-> i]
Complete == Machine /\ st = "ok" => pos = Total(dir)
NoPartial == Machine /\ failed => st = "error"
Cut == Machine /\ dir = "read" /\ st # "run" /\ end < Total(dir) => st = "error"
\* The result depends on the event, and not on the chunks or the interruptions.
Rule == Family = "rule" /\ st # "run" => st = Expected(dir, pol.event, pol.at, Total(dir))
OnlyFaults == Family = "free" /\ st = "error" => failed \/ (dir = "read" /\ end < Total(dir))
Ends == Machine => <>(st # "run")
Emit == (Family = "points" \/ (Family = "walk" /\ case.fault # <<>>)) => PrintT(ToJson(case))
=============================================================================

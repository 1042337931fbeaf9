----------------------------- MODULE SavesTrace -----------------------------
(***************************************************************************)
(* Checks the values that the library drew, in several processes, against  *)
(* Saves.tla. An event is [op, names, look, keep, derived, bytes, run],    *)
(* and run is the number of the process: look                              *)
(* and keep hold the pieces (8 bytes each) of the values in names; keep    *)
(* those at every eighth byte, look those at every byte, so that 15 bytes  *)
(* in common are seen wherever they are. derived holds pieces of what can  *)
(* be computed from the values: digests, sums and differences.             *)
(***************************************************************************)
EXTENDS Saves, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE at
tvars == <<at, taken, dbs, files, hist>>

SetOf(s) == Range(s)
TInit == at = 1 /\ taken = {} /\ dbs = 0 /\ files = 0 /\ hist = <<>>
Event(e) ==
  LET look == [i \in 1..Len(e.look) |-> SetOf(e.look[i])]
      keep == [i \in 1..Len(e.keep) |-> SetOf(e.keep[i])]
      derived == SetOf(e.derived)
      ok == e.names = Names(e.op) /\ Fresh(taken, look, keep, derived)
  IN /\ IF ok THEN TRUE
        ELSE PrintT(ToJson([rejected |-> at, case |-> e.case, op |-> e.op,
                            values |-> [i \in {i \in 1..Len(look) : \/ look[i] \cap (taken \cup derived) # {}
                                                                    \/ \E j \in 1..Len(keep) : i # j /\ look[i] \cap keep[j] # {}} |-> e.names[i]]]))
     /\ taken' = Known(taken, keep, derived)
TNext == at <= Len(Trace) /\ Event(Trace[at]) /\ at' = at + 1 /\ UNCHANGED <<dbs, files, hist>>
TSpec == TInit /\ [][TNext]_tvars

-----------------------------------------------------------------------------
AllNames == Range(SaveFields) \cup {"key"} \cup Identifiers
Runs == {Trace[i].run : i \in 1..Len(Trace)}
\* The values of a name in one process: where they are in the trace.
Values(name, runs) == {<<i, j>> \in {<<i, j>> : i \in 1..Len(Trace), j \in 1..5} : j <= Len(Trace[i].names) /\ Trace[i].names[j] = name /\ Trace[i].run \in runs}
RECURSIVE Pow(_)
Pow(k) == IF k = 0 THEN 1 ELSE 2 * Pow(k - 1)
Bit(b, k) == (b \div Pow(k)) % 2
\* The version and the variant of an identifier are fixed.
FixedBit(name, pos, k) == name \in Identifiers /\ ((pos = 7 /\ k >= 4) \/ (pos = 9 /\ k >= 6))
Size(name) == IF name \in Identifiers \cup {"initialisation vector"} THEN 16 ELSE 32
\* Every bit of every value is drawn both ways, in every process.
Both(name, run) ==
  LET V == Values(name, {run})
      at2 == [pos \in 1..Size(name) |-> {Trace[x[1]].bytes[x[2]][pos] : x \in V}]
  IN IF Cardinality(V) < 44 THEN {}
     ELSE {pos \in 1..Size(name) : \E k \in 0..7 : ~FixedBit(name, pos, k) /\ Cardinality({Bit(b, k) : b \in at2[pos]}) < 2}
\* No byte of a value goes with another one of the same event: neither their
\* difference nor their sum is always the same.
Linked(op) ==
  LET names == Names(op)
      E == {i \in 1..Len(Trace) : Trace[i].op = op}
      W == {i \in E : Cardinality({y \in E : y < i}) < 40}
      Places == {<<j, pos>> \in (1..Len(names)) \X (1..32) : pos <= Size(names[j])}
      Before(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
      Fixed(p) == names[p[1]] \in Identifiers /\ p[2] \in {7, 9}
      Same(S) == Cardinality(S) = 1
  IN IF Cardinality(E) < 40 THEN {}
     ELSE {pq \in Places \X Places : /\ Before(pq[1], pq[2])
                                     /\ ~(Fixed(pq[1]) /\ Fixed(pq[2]))
                                     /\ \/ Same({(Trace[i].bytes[pq[1][1]][pq[1][2]] + 256 - Trace[i].bytes[pq[2][1]][pq[2][2]]) % 256 : i \in W})
                                        \/ Same({(Trace[i].bytes[pq[1][1]][pq[1][2]] + Trace[i].bytes[pq[2][1]][pq[2][2]]) % 256 : i \in W})}
Missing == LET seen == UNION {Range(Trace[i].bytes[j]) : i \in {i \in 1..Len(Trace) : Trace[i].op = "save"}, j \in 1..5}
               n == Cardinality({i \in 1..Len(Trace) : Trace[i].op = "save"})
           IN IF n < 80 THEN {} ELSE (0..255) \ seen
Say(what, values) == PrintT(ToJson([rejected |-> 0, case |-> 0, op |-> what, values |-> values]))
Report == at > Len(Trace) =>
  /\ \A name \in AllNames, run \in Runs :
       LET bad == Both(name, run) IN bad # {} => Say("a bit of every value in a process is the same", <<name, ToString(bad)>>)
  /\ \A op \in {"save", "failing save", "key file", "entry", "group", "icon"} :
       LET bad == Linked(op) IN bad # {} => Say("two bytes of every value go together", <<op, ToString(bad)>>)
  /\ LET m == Missing IN m # {} => Say("bytes that are never drawn", <<ToString(m)>>)
  /\ PrintT(ToJson([accepted |-> Len(Trace), pieces |-> Cardinality(taken),
                    counts |-> [name \in AllNames |-> {Cardinality(Values(name, {run})) : run \in Runs}]]))
=============================================================================

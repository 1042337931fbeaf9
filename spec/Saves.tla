-------------------------------- MODULE Saves --------------------------------
(***************************************************************************)
(* Random values: which operations draw them, and that each is fresh.      *)
(*                                                                         *)
(* A value is known by its pieces. Of the values that the library draws,   *)
(* no piece may be one that was taken before: by another value of the same *)
(* save, by an earlier save or key, by another process, or as something    *)
(* that can be computed from the values that were taken.                   *)
(*                                                                         *)
(* Here every value is one piece, a number, and the histories are          *)
(* generated. SavesTrace.tla checks the values that the library drew while *)
(* these histories were replayed.                                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANT MaxOps

Range(f) == {f[x] : x \in DOMAIN f}

\* What an operation draws.
SaveFields == << "master seed", "transform seed", "initialisation vector", "stream key", "start bytes" >>
Names(op) == CASE op \in {"save", "failing save"} -> SaveFields
               [] op = "key file" -> <<"key">>
               \* one by itself, and that of a new entry or group
               [] op = "entry" -> <<"entry identifier", "identifier of an entry">>
               [] op = "group" -> <<"group identifier", "identifier of a group">>
               [] op = "icon" -> <<"icon identifier">>
               [] OTHER -> <<>>

Identifiers == {"entry identifier", "identifier of an entry", "group identifier", "identifier of a group", "icon identifier"}

\* look: the pieces of the values that may not be known; keep: those that are
\* known from now on; derived: what can be computed from the values.
Fresh(taken, look, keep, derived) ==
  \A i \in 1..Len(look) :
    /\ look[i] \cap taken = {}
    /\ look[i] \cap derived = {}
    /\ \A j \in 1..Len(keep) : i # j => look[i] \cap keep[j] = {}
Known(taken, keep, derived) == taken \cup UNION Range(keep) \cup derived

VARIABLES dbs,    \* number of databases in memory
          files,  \* number of files
          taken,  \* pieces
          hist
vars == <<dbs, files, taken, hist>>

Next0(op, d, how) ==
  LET names == Names(op)
      n == Cardinality(taken)
      look == [i \in 1..Len(names) |-> {n + i}]
  IN /\ Fresh(taken, look, look, {})
     /\ taken' = Known(taken, look, {})
     /\ hist' = Append(hist, [op |-> op, d |-> d, how |-> how, draws |-> names])

Pick(n) == RandomElement(1..n)
Init == dbs = 0 /\ files = 0 /\ taken = {} /\ hist = <<>>
Step ==
  /\ Len(hist) < MaxOps
  /\ \E op \in {IF dbs = 0 THEN "new" ELSE RandomElement({"new", "edit", "save", "save again", "failing save", "failing save", "open", "clone", "key file", "entry", "group", "icon"})},
        d \in {IF dbs = 0 THEN 0 ELSE Pick(dbs)}, f \in {IF files = 0 THEN 0 ELSE Pick(files)} :
       CASE op = "new" -> \E how \in {RandomElement({"as created", "few rounds", "full"})} : Next0(op, d, how) /\ dbs' = dbs + 1 /\ UNCHANGED files
         [] op = "clone" -> Next0(op, d, "") /\ dbs' = dbs + 1 /\ UNCHANGED files
         [] op = "open" /\ f > 0 -> Next0(op, f, "") /\ dbs' = dbs + 1 /\ UNCHANGED files
         \* the same database, unchanged, as in the save before
         [] op = "save again" /\ files > 0 /\ hist[Len(hist)].op = "save" -> Next0("save", hist[Len(hist)].d, "") /\ files' = files + 1 /\ UNCHANGED dbs
         [] op = "failing save" -> \E how \in {RandomElement({"late", "early"})} : Next0(op, d, how) /\ UNCHANGED <<dbs, files>>
         [] op = "key file" -> \E how \in {RandomElement({"binary", "hex", "xml", "default"})} : Next0(op, 0, how) /\ UNCHANGED <<dbs, files>>
         [] op = "edit" -> \E how \in {RandomElement({"name", "rounds", "compression", "key", "version", "comment"})} : Next0(op, d, how) /\ UNCHANGED <<dbs, files>>
         [] op \in {"entry", "group", "icon"} -> Next0(op, d, "") /\ UNCHANGED <<dbs, files>>
         [] OTHER -> Next0("save", d, "") /\ files' = files + 1 /\ UNCHANGED dbs
Spec == Init /\ [][Step]_vars

-----------------------------------------------------------------------------
\* Every value that was drawn is another one.
RECURSIVE Drawn(_)
Drawn(h) == IF h = <<>> THEN 0 ELSE Len(Head(h).draws) + Drawn(Tail(h))
AllFresh == Cardinality(taken) = Drawn(hist)
Done == Len(hist) = MaxOps
Emit == Done => PrintT(ToJson([hist |-> hist]))
=============================================================================

--------------------------- MODULE KdbxContainer ---------------------------
(***************************************************************************)
(* The KDBX 3.1 container, token by token: a writer that may deviate from  *)
(* the format and a reader that says what each deviation is. One step      *)
(* writes one token and lets the reader consume it.                        *)
(*                                                                         *)
(* A file is: two signatures, the version, the header fields in some       *)
(* order, the end of the header, and the encrypted payload; the payload    *)
(* is: the stream start bytes, numbered and hashed blocks, a final block;  *)
(* the blocks hold the XML, plain or compressed, with the header's hash.   *)
(*                                                                         *)
(* errs collects the errors that the deviations stand for. A file without  *)
(* any opens; a file with some is rejected with one of them.               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxDev,     \* deviations in one file
          Orders,     \* orders of the header fields
          Comments, RoundsSet, BlockCounts, Minors,
          Bulks,      \* small good blocks before the others, as one token
          Sizes,      \* of the content: "small", "big": blocks of more than a mebibyte
          Random      \* TRUE: simulation, configurations picked at random

F(id) == "f" \o ToString(id)
Required == 2..10
NoComment == "none"

\* The order as a sequence of field numbers.
Order(name) ==
  CASE name = "up"    -> <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10>>
    [] name = "down"  -> <<10, 9, 8, 7, 6, 5, 4, 3, 2, 1>>
    [] name = "keepass" -> <<2, 3, 4, 5, 6, 7, 8, 9, 10, 1>>
    [] name = "odd"   -> <<1, 3, 5, 7, 9, 2, 4, 6, 8, 10>>
    [] name = "even"  -> <<10, 8, 6, 4, 2, 9, 7, 5, 3, 1>>
    [] name = "mid"   -> <<6, 7, 5, 8, 4, 9, 3, 10, 2, 1>>
    [] OTHER -> <<>>

RECURSIVE Shuffle(_)
Shuffle(S) == IF S = {} THEN <<>> ELSE LET x == RandomElement(S) IN <<x>> \o Shuffle(S \ {x})

-----------------------------------------------------------------------------
\* One way to write a token: kind names it, dev says that it deviates, errs
\* are the errors that name the deviation, cut says that the file ends here.
Opt(kind, errs) == [kind |-> kind, dev |-> TRUE, errs |-> errs, cut |-> FALSE]
Same(kind)      == [kind |-> kind, dev |-> FALSE, errs |-> {}, cut |-> FALSE]
Extra(kind)     == [kind |-> kind, dev |-> TRUE, errs |-> {}, cut |-> FALSE]
Cut(kind)       == [kind |-> kind, dev |-> TRUE, errs |-> {"Io"}, cut |-> TRUE]

FieldOpts(id) ==
  {Same("ok"), Extra("dup"), Cut("cutid"), Cut("cutlen"), Cut("cutdata"), Cut("cutbefore")}
  \cup {Opt("unknown" \o ToString(u), {"UnhandledHeader:" \o ToString(u)}) : u \in {11, 12, 127, 255}}
  \cup (IF id = 1 THEN {Extra("duplast")}
        ELSE {Extra("omit"),
              Opt("short", {"InvalidHeaderSize:" \o ToString(id)}),
              Opt("long", {"InvalidHeaderSize:" \o ToString(id)}),
              Opt("zero", {"InvalidHeaderSize:" \o ToString(id)}),
              Opt("double", {"InvalidHeaderSize:" \o ToString(id)})})
  \cup (CASE id = 2  -> {Opt("bad", {"UnhandledMasterCipher"}), Opt("twofish", {"UnhandledMasterCipher"}),
                         Opt("bit", {"UnhandledMasterCipher"})}
          [] id = 3  -> {Opt("bad", {"UnhandledCompression"}), Opt("two", {"UnhandledCompression"}),
                         Opt("high", {"UnhandledCompression"}), Extra("duplast")}
          [] id = 10 -> {Opt("bad", {"UnhandledStreamCipher"}), Opt("zeroid", {"UnhandledStreamCipher"}),
                         Opt("arc4", {"UnhandledStreamCipher"}), Opt("high", {"UnhandledStreamCipher"})}
          [] id \in {4, 5, 6} -> {Opt("duplast", {"CryptoError", "InvalidKey"})}
          [] id = 7 -> {Opt("duplast", {"CryptoError", "InvalidKey"})} \* a payload of one block loses its padding
          [] id = 9 -> {Opt("duplast", {"InvalidKey"})}
          [] OTHER -> {})

BlockOpts(last) ==
  {Same("ok"),
   Opt("idplus", {"InvalidBlockId"}), Opt("idminus", {"InvalidBlockId"}), Opt("idhigh", {"InvalidBlockId"}),
   Opt("hashflip", {"InvalidBlockHash"}), Opt("hashlast", {"InvalidBlockHash"}),
   Opt("hashzero", {"InvalidBlockHash"}), Opt("dataflip", {"InvalidBlockHash"}),
   Opt("lenhuge", {"Io"}), Opt("early", {"Io", "XmlError"}),
   Cut("cutid"), Cut("cuthash"), Cut("cutlen"), Cut("cutdata"), Cut("cutbefore")}

OptsOf(st) ==
  CASE st.t = "sig1"    -> {Same("ok"), Opt("bad", {"InvalidDbSignature"}), Opt("bit", {"InvalidDbSignature"}),
                            Opt("swapped", {"InvalidDbSignature"}), Cut("nothing"), Cut("cut")}
    [] st.t = "sig2"    -> {Same("ok"), Opt("kdb1", {"UnhandledDbType"}), Opt("beta", {"UnhandledDbType"}),
                            Opt("bad", {"UnhandledDbType"}), Cut("nothing"), Cut("cut")}
    [] st.t = "version" -> {Same("ok"), Cut("nothing"), Cut("cut")}
    [] st.t = "field"   -> FieldOpts(st.id)
    [] st.t = "end"     -> {Same("ok"), Extra("end0"), Extra("end1"), Extra("end100"), Extra("end256"), Extra("end300"), Extra("end65535"), Cut("cutid"), Cut("cutlen"), Cut("cutdata"), Cut("cutbefore")}
    [] st.t = "cipher"  -> {Same("ok"), Opt("wrongkey", {"CryptoError", "InvalidKey"}),
                            Opt("empty", {"CryptoError", "InvalidKey", "Io"}),
                            Opt("odd1", {"CryptoError", "InvalidKey", "Io"}), Opt("odd15", {"CryptoError", "InvalidKey", "Io"}),
                            Opt("pad0", {"CryptoError", "InvalidKey"}),
                            Opt("padall", {"CryptoError", "InvalidKey"}), Opt("pad17", {"CryptoError", "InvalidKey"}),
                            Opt("padmix", {"CryptoError", "InvalidKey"}), Opt("firstflip", {"CryptoError", "InvalidKey"}),
                            Opt("short0", {"InvalidKey", "Io"}), Opt("short1", {"InvalidKey", "Io"}),
                            Opt("short31", {"InvalidKey", "Io"}), Opt("only32", {"Io"})}
    [] st.t = "start"   -> {Same("ok"), Opt("flip0", {"InvalidKey"}), Opt("flip16", {"InvalidKey"}), Opt("flip31", {"InvalidKey"})}
    [] st.t = "bulk"    -> {Same("ok")}
    [] st.t = "block"   -> BlockOpts(FALSE)
    [] st.t = "final"   -> {Same("ok"), Opt("idplus", {"InvalidBlockId"}), Opt("idminus", {"InvalidBlockId"}),
                            Opt("hashbit", {"InvalidFinalBlockHash"}), Opt("hashlast", {"InvalidFinalBlockHash"}),
                            Opt("hashempty", {"InvalidFinalBlockHash"}),
                            Cut("cutid"), Cut("cuthash"), Cut("cutlen"), Cut("cutbefore")}
    [] st.t = "content" -> {Same("ok"), Extra("members"), Extra("stored"), Extra("named"), Extra("crc"), Extra("isize"), Extra("notrailer"), Extra("half"),
                            Extra("other"), Extra("magic")}
    [] st.t = "hash"    -> {Same("ok"), Extra("absent"), Opt("flip", {"InvalidHeaderHash"}),
                            Opt("last", {"InvalidHeaderHash"}), Opt("short", {"InvalidHeaderHash"}),
                            Opt("half", {"InvalidHeaderHash"}), Opt("empty", {"InvalidHeaderHash"}), Opt("long", {"InvalidHeaderHash"}),
                            Opt("other", {"InvalidHeaderHash"}), Opt("notb64", {"XmlError"})}

-----------------------------------------------------------------------------
VARIABLES conf,    \* what the writer writes
          n,       \* number of tokens written
          toks,    \* the tokens
          fields,  \* reader: the fields seen, with "good" or "decoy" for the value that counts
          errs, dev, phase

vars == <<conf, n, toks, fields, errs, dev, phase>>

HeaderIds(c) == SelectSeq(c.order, LAMBDA id : id # 1 \/ c.comment # NoComment)
Stage(t, id) == [t |-> t, id |-> id]
Stages(c) ==
  <<Stage("sig1", 0), Stage("sig2", 0), Stage("version", 0)>>
  \o [i \in 1..Len(HeaderIds(c)) |-> Stage("field", HeaderIds(c)[i])]
  \o <<Stage("end", 0), Stage("cipher", 0), Stage("start", 0)>>
  \o (IF c.bulk = 0 THEN <<>> ELSE <<Stage("bulk", c.bulk)>>)
  \o [i \in 1..c.blocks |-> Stage("block", c.bulk + i - 1)]
  \o <<Stage("final", c.bulk + c.blocks), Stage("content", 0), Stage("hash", 0)>>

Confs == [order : {Order(o) : o \in Orders}, comment : Comments, rounds : RoundsSet,
          gz : BOOLEAN, minor : Minors, blocks : BlockCounts, size : Sizes, bulk : Bulks]
\* One configuration differs from the first in at most one respect.
Base == [order |-> Order("up"), comment |-> "c5", rounds |-> 1, gz |-> TRUE, minor |-> 1, blocks |-> 2, size |-> "small", bulk |-> 0]
Near == {c \in Confs : Cardinality({d \in DOMAIN Base : c[d] # Base[d]}) <= 1}
RandomConf == [order |-> Shuffle(1..10), comment |-> RandomElement(Comments), rounds |-> RandomElement(RoundsSet),
               gz |-> RandomElement(BOOLEAN), minor |-> RandomElement(Minors), blocks |-> RandomElement(BlockCounts),
               size |-> RandomElement(Sizes), bulk |-> RandomElement(Bulks)]

Init == /\ conf \in (IF Random THEN {Base} ELSE Near)
        /\ n = 0 /\ toks = <<>> /\ fields = <<>> /\ errs = {} /\ dev = 0
        /\ phase = IF Random THEN "choose" ELSE "writing"

Choose == /\ phase = "choose" /\ phase' = "writing"
          /\ \E c \in {RandomConf} : conf' = c
          /\ UNCHANGED <<n, toks, fields, errs, dev>>

\* What the reader knows of a field after the token.
SeeField(id, kind) ==
  CASE kind = "omit"    -> fields
    [] kind = "duplast" -> (id :> "decoy") @@ fields
    [] OTHER            -> (id :> "good") @@ fields

\* The content as the blocks hold it, against the compression that counts.
ContentErrs(kind) ==
  LET flag == IF 3 \in DOMAIN fields /\ fields[3] = "decoy" THEN ~conf.gz ELSE conf.gz
      form == IF kind = "ok" THEN (IF conf.gz THEN "gz" ELSE "xml")
              ELSE IF kind \in {"members", "stored", "named"} THEN "gz"
              ELSE IF kind = "other" THEN (IF conf.gz THEN "xml" ELSE "gz")
              ELSE "broken"
  IN CASE form = "gz"  /\ flag -> {}
       [] form = "xml" /\ ~flag -> {}
       [] flag -> {"Io"}
       [] OTHER -> {"XmlError"}

Missing == {"MissingHeader:" \o ToString(id) : id \in Required \ DOMAIN fields}

Cost(o) == IF o.dev THEN 1 ELSE 0

Step ==
  /\ phase = "writing" /\ n < Len(Stages(conf))
  /\ LET st == Stages(conf)[n + 1]
         \* a big file deviates in its blocks and their content only
         allowed == {o \in OptsOf(st) : dev + Cost(o) <= MaxDev
                                        /\ (o.dev /\ (conf.size = "big" \/ conf.bulk > 300) => st.t \in {"block", "final", "content", "hash"})}
         choice == IF Random THEN {RandomElement(IF RandomElement(1..12) = 1 THEN allowed ELSE {Same("ok")})} ELSE allowed
     IN \E o \in choice :
          \* broken compression makes sense only where there is some
          /\ (st.t = "content" /\ ~conf.gz => o.kind \in {"ok", "other"})
          /\ toks' = Append(toks, <<st.t, st.id, o.kind>>)
          /\ dev' = dev + Cost(o)
          /\ fields' = IF st.t = "field" /\ ~o.cut THEN SeeField(st.id, o.kind) ELSE fields
          \* without transform rounds the transform seed does not matter
          /\ errs' = errs \cup (IF st = Stage("field", 5) /\ o.kind = "duplast" /\ conf.rounds = 0 THEN {} ELSE o.errs)
                     \cup (IF st.t = "end" /\ ~o.cut THEN Missing ELSE {})
                     \cup (IF st.t = "content" THEN ContentErrs(o.kind) ELSE {})
          /\ n' = n + 1
          /\ phase' = IF o.cut \/ n + 1 = Len(Stages(conf)) THEN "done" ELSE "writing"
          /\ UNCHANGED conf

Next == Choose \/ Step
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Opens == phase = "done" /\ errs = {}
\* A file that opens has every field, and nothing of it has the wrong value.
OpensComplete == Opens => /\ Required \subseteq DOMAIN fields
                          /\ \A id \in DOMAIN fields \ {1, 3} :
                                fields[id] = "good" \/ (id = 5 /\ conf.rounds = 0)
\* Without deviation a file opens; what one deviation is called is unambiguous,
\* up to how a wrong key or a short payload shows itself.
CleanOpens == phase = "done" /\ dev = 0 => errs = {}
Named == phase = "done" /\ dev <= 1 =>
           \/ Cardinality(errs) <= 1
           \/ errs \subseteq {"CryptoError", "InvalidKey", "Io"}
           \/ errs = {"Io", "XmlError"}

Emit == phase = "done" => PrintT(ToJson([conf |-> conf, toks |-> toks, errs |-> errs, dev |-> dev]))
=============================================================================

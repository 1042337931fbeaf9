------------------------------ MODULE Foreign ------------------------------
(***************************************************************************)
(* A file that another program wrote. The content is built as in Fields;   *)
(* the style says how that program lays the file out. Opening it gives the *)
(* content, whatever the style; then the database can be edited, saved and *)
(* opened again.                                                           *)
(***************************************************************************)
EXTENDS Fields

CONSTANTS MaxEdits    \* edits between open and save

VARIABLES style, edits

fvars == <<base, hist, mem, disk, pc, cycles, style, edits>>

\* The dimensions in which files of other programs differ.
Dim == [
  shuffle  |-> BOOLEAN,              \* order of the elements
  hshuffle |-> BOOLEAN,              \* order of the header fields
  indent   |-> {"none", "tab", "two", "crlf"},
  bools    |-> {"Title", "lower", "upper", "mixed"},
  unknown  |-> {0, 2, 6},            \* unknown elements, chance in 16
  text     |-> {"escaped", "cdata", "references", "mixed"},
  pool     |-> {"plain", "gzip", "mixed"},
  protpool |-> BOOLEAN,              \* protected binaries in the pool
  pim      |-> BOOLEAN,              \* ProtectInMemory attributes
  hash     |-> BOOLEAN,              \* header hash present
  close    |-> BOOLEAN,              \* empty elements as <a/> or <a></a>
  bom      |-> BOOLEAN,
  block    |-> {17, 100, 4096, 1048576},
  deflate  |-> {"usual", "stored", "fast", "best", "named", "members", "flushed"}, \* kinds of gzip files
  prolog   |-> {"keepass", "none", "short", "single", "comment", "instruction"}, \* around the document
  dates    |-> {"zulu", "padded", "offset"}, \* in UTC, with zeros after the seconds, in another time zone
  tags     |-> {"tight", "spaced", "single", "both", "short"},
  dup      |-> {"none", "header"} ]  \* a header field twice, the first a decoy

KeePass == [shuffle |-> FALSE, hshuffle |-> FALSE, indent |-> "tab", bools |-> "Title", unknown |-> 0,
            text |-> "escaped", pool |-> "gzip", protpool |-> FALSE, pim |-> FALSE,
            hash |-> TRUE, close |-> TRUE, bom |-> FALSE, block |-> 1048576, dup |-> "none",
            deflate |-> "usual", prolog |-> "keepass", dates |-> "zulu", tags |-> "tight"]

\* Every style that differs from KeePass's in one dimension.
OneOff == {KeePass} \cup UNION {{[KeePass EXCEPT ![d] = v] : v \in Dim[d]} : d \in DOMAIN Dim}

RandomStyle == [d \in DOMAIN Dim |-> RandomElement(Dim[d])]

\* Dates that other programs do not write.
Exotic == {"yneg", "y10000", "max", "min", "leap", "y0000"}
Writable(f, c) == Representable(f, c) /\ (f[3] = "date" => c \notin Exotic)
                    /\ (f[3] = "freetext" => c \notin XmlBad)
AllWritable == \A s \in DOMAIN mem : Writable(mem[s][1], mem[s][2])

FInit == Init /\ style = KeePass /\ edits = <<>>

\* The other program puts the content together.
FSetRandom ==
  \E site \in {RandomElement(SitesOf(base))} :
  \E f \in {RandomElement(FieldsOf(site))} :
  \E class \in {RandomElement({c \in ClassesOf(f[3]) : Writable(f, c)})} :
  \/ Assign(site, f, class)
  \/ /\ pc = "edit" /\ Len(hist) < MaxSets
     /\ Slot(site, f) \in DOMAIN mem
     /\ UNCHANGED <<base, hist, mem, disk, pc, cycles>>
Compose == (IF Random THEN FSetRandom ELSE SetAny) /\ AllWritable' /\ UNCHANGED <<style, edits>>

\* In a run that varies the style, one content per base will do.
FWrite ==
  /\ pc = "edit" /\ (Random => Len(hist) = MaxSets)
  /\ hist # <<>> \/ MaxSets = 0
  /\ style' \in (IF Random THEN {RandomStyle} ELSE IF MaxSets = 0 THEN OneOff ELSE {KeePass})
  /\ disk' = [ok |-> TRUE, content |-> mem]
  /\ pc' = "written"
  /\ UNCHANGED <<base, hist, mem, cycles, edits>>

FOpen == /\ pc \in {"written", "saved"}
         /\ mem' = disk.content
         /\ pc' = IF pc = "written" THEN "opened" ELSE "done"
         /\ UNCHANGED <<base, hist, disk, cycles, style, edits>>

FEdit ==
  /\ pc = "opened" /\ Len(edits) < MaxEdits
  /\ \E site \in {RandomElement(SitesOf(base))} :
     \E f \in {RandomElement(FieldsOf(site))} :
     \E class \in {RandomElement({c \in ClassesOf(f[3]) : Representable(f, c)})} :
        /\ edits' = Append(edits, <<site, f[1], class>>)
        /\ mem' = (Slot(site, f) :> <<f, class>>) @@ mem
  /\ UNCHANGED <<base, hist, disk, pc, cycles, style>>

FSave == /\ pc = "opened" /\ (Random => Len(edits) = MaxEdits)
         /\ disk' = [ok |-> TRUE, content |-> mem]
         /\ pc' = "saved"
         /\ UNCHANGED <<base, hist, mem, cycles, style, edits>>

FNext == Compose \/ FWrite \/ FOpen \/ FEdit \/ FSave
FSpec == FInit /\ [][FNext]_fvars

-----------------------------------------------------------------------------
\* Opening gives what was written, and the last open gives what was saved.
SameContent == pc \in {"opened", "done"} /\ edits = <<>> => mem = disk.content
FAllRepresentable == pc = "saved" => AllRepresentable

FEmit == pc = "done" =>
  PrintT(ToJson([base |-> base, set |-> hist, style |-> style, edits |-> edits]))
=============================================================================

------------------------------- MODULE Fields -------------------------------
(***************************************************************************)
(* The content of a database as slots, and what saving and opening do to   *)
(* it. A slot is a place that holds one value: a metadata field, or a      *)
(* field of a group, entry or history entry. The values are classes that   *)
(* together cover what a program can store (values.rs in the harness picks *)
(* concrete values of a class).                                            *)
(*                                                                         *)
(* mem   the database in memory: the assigned slots with their classes     *)
(* disk  the content of the last successful save                           *)
(*                                                                         *)
(* Save succeeds if and only if the format can represent every value; it   *)
(* leaves the memory as it is. Open brings the file's content to memory.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxSets,    \* number of slots assigned in one history
          Bases,      \* kinds of databases to start from
          Random,     \* TRUE: pick slots at random (simulation mode)
          MaxCycles,  \* number of save and open cycles in one history
          Heavy       \* TRUE: include the large values

XmlBad == {"nul", "c0", "esc", "us", "fffe", "ffff"}
TextBig == IF Heavy THEN {"n4097", "near2", "n64k", "n70k", "n1m"} ELSE {"n4097", "near2", "n70k"}
TextOk ==
  {"empty", "word", "phrase", "space1", "spaces", "tabs", "nlonly", "cronly",
   "lead", "trail", "tab", "nl", "crlf", "cr", "markup", "amp", "cdata",
   "cdend", "entity", "comment", "quotes", "latin", "greek", "cjk", "emoji",
   "rtl", "combining", "c1", "del", "linesep", "bom", "repl", "maxchar",
   "nbsp", "unispace", "zerowidth", "blanks", "margins", "lines", "null", "true", "number", "b64",
   "punct", "list", "path", "url", "placeholder",
   "n4095", "n4096"} \cup TextBig
Text == TextOk \cup XmlBad
BytesBig == IF Heavy THEN {"b4097", "near2", "b70k", "b2m"} ELSE {"b4097", "near2", "b70k"}
Bytes == {"b0", "b1", "b2", "b3", "b15", "b16", "b17", "b32", "b63", "b64",
          "b65", "b1k", "zeros", "ones", "gzip", "gzmagic", "text",
          "badutf8"} \cup BytesBig
\* Both parts of an item of a map or list at once: "key/value".
ItemText == {"empty", "space1", "cr", "markup", "punct", "number", "word"} \cup
            (IF Heavy THEN {"nlonly", "lead", "trail", "emoji", "null", "n4097"} ELSE {})
ItemBytes == {"b0", "b1", "b16", "badutf8"} \cup
             (IF Heavy THEN {"b3", "b65", "zeros", "gzip", "b4097"} ELSE {})
Icons == {"i" \o ToString(n) : n \in 0..68}

\* The classes of values of each kind of slot.
ClassesOf(kind) ==
  CASE kind = "text"    -> Text
    [] kind = "sectext" -> Text \cup {"badutf8"}
    [] kind = "freetext" -> Text
    [] kind = "strkey"  -> Text \cup {"std", "stdlower", "stdupper"}
    [] kind = "bytes"   -> Bytes
    [] kind = "int"     -> {"zero", "one", "minus", "max", "min", "byte",
                            "short", "ushort", "any"}
    [] kind = "bool"    -> {"true", "false"}
    [] kind = "optbool" -> {"true", "false", "none"}
    [] kind = "date"    -> {"now", "day", "epoch", "pre", "milli", "micro",
                            "nano", "prenano", "lastnano", "y0001", "y0000",
                            "yneg", "y9999", "y10000", "max", "min",
                            "leapday", "leap"}
    \* "ref": the identifier of something that is there
    [] kind = "uuid"    -> {"nil", "max", "any", "ws", "ref"}
    [] kind = "iconid"  -> {"nil", "max", "any", "ws"}
    [] kind = "optuuid" -> {"none", "nil", "max", "any", "ref"}
    [] kind = "poolref" -> Text \cup {"ref"}
    [] kind = "color"   -> {"none", "black", "white", "low", "red", "any"}
    [] kind = "icon"    -> Icons
    [] kind = "obf"     -> {"none", "clipboard"}
    [] kind = "count"   -> {"one", "two", "five", "fifty", "n300"}
    [] kind = "nodes"   -> {"one", "two", "five", "fifty", "n300", "bare"}
    [] kind = "few"     -> {"bare", "one", "two", "five", "twelve", "n130"}
    [] kind = "texttext"  -> {a \o "/" \o b : a \in ItemText, b \in ItemText}
    [] kind = "textbytes" -> {a \o "/" \o b : a \in ItemText, b \in ItemBytes}
    [] kind = "iconbytes" -> {a \o "/" \o b : a \in {"nil", "max", "any", "ws"}, b \in ItemBytes}
    [] kind = "depth"   -> {"d5", "d30", "d100"} \cup (IF Heavy THEN {"d180"} ELSE {})
    [] kind = "comment" -> {"none", "empty", "text", "bytes", "zero", "n255",
                            "n256", "n32768", "n65535", "n65536", "n65537",
                            "n131072"}
    [] kind = "compression" -> {"none", "gzip"}
    [] kind = "rounds"  -> {"r0", "r1", "r255", "r256", "r6000", "r65535",
                            "r65536", "r70000"} \cup
                           (IF Heavy THEN {"r300000"} ELSE {})
    [] kind = "version" -> {"v3.1", "v3.0", "v2.20", "v0.0", "v4.0",
                            "v3.257", "v258.1", "vmax"}
    [] kind = "dbtype"  -> {"kdb1", "kdb2"}

\* field name, slot it fills (two fields may fill one slot), kind of value
MetaFields == {
  <<"comment", "comment", "comment">>,
  <<"compression", "compression", "compression">>,
  <<"rounds", "rounds", "rounds">>,
  <<"version", "version", "version">>,
  <<"db_type", "db_type", "dbtype">>,
  <<"generator", "generator", "freetext">>,
  <<"binaries", "binaries", "count">>,
  <<"binaries.data", "binaries.data", "bytes">>,
  <<"binaries.id", "binaries.id", "text">>,
  <<"binaries.item", "binaries.item", "textbytes">>,
  <<"color", "color", "color">>,
  <<"custom_data", "custom_data", "count">>,
  <<"custom_data.key", "custom_data.key", "text">>,
  <<"custom_data.value", "custom_data.value", "text">>,
  <<"custom_data.item", "custom_data.item", "texttext">>,
  <<"custom_icons", "custom_icons", "count">>,
  <<"custom_icons.uuid", "custom_icons.uuid", "iconid">>,
  <<"custom_icons.data", "custom_icons.data", "bytes">>,
  <<"custom_icons.item", "custom_icons.item", "iconbytes">>,
  <<"def_username", "def_username", "text">>,
  <<"def_username_changed", "def_username_changed", "date">>,
  <<"description", "description", "text">>,
  <<"description_changed", "description_changed", "date">>,
  <<"entry_templates_group_changed", "entry_templates_group_changed", "date">>,
  <<"entry_templates_group_uuid", "entry_templates_group_uuid", "uuid">>,
  <<"history_max_items", "history_max_items", "int">>,
  <<"history_max_size", "history_max_size", "int">>,
  <<"last_selected_group", "last_selected_group", "uuid">>,
  <<"last_top_visible_group", "last_top_visible_group", "uuid">>,
  <<"maintenance_history_days", "maintenance_history_days", "int">>,
  <<"master_key_change_force", "master_key_change_force", "int">>,
  <<"master_key_change_rec", "master_key_change_rec", "int">>,
  <<"master_key_changed", "master_key_changed", "date">>,
  <<"name", "name", "text">>,
  <<"name_changed", "name_changed", "date">>,
  <<"protect_notes", "protect_notes", "bool">>,
  <<"protect_password", "protect_password", "bool">>,
  <<"protect_title", "protect_title", "bool">>,
  <<"protect_url", "protect_url", "bool">>,
  <<"protect_username", "protect_username", "bool">>,
  <<"recycle_bin_changed", "recycle_bin_changed", "date">>,
  <<"recycle_bin_enabled", "recycle_bin_enabled", "bool">>,
  <<"recycle_bin_uuid", "recycle_bin_uuid", "uuid">> }

TimesFields == {
  <<"creation_time", "creation_time", "date">>,
  <<"expiry_time", "expiry_time", "date">>,
  <<"last_accessed", "last_accessed", "date">>,
  <<"last_modified", "last_modified", "date">>,
  <<"location_changed", "location_changed", "date">>,
  <<"expires", "expires", "bool">>,
  <<"usage_count", "usage_count", "int">> }

GroupFields == TimesFields \cup {
  <<"uuid", "uuid", "uuid">>,
  <<"parent", "parent", "uuid">>,
  <<"custom_icon_uuid", "custom_icon_uuid", "optuuid">>,
  <<"def_auto_type_sequence", "def_auto_type_sequence", "text">>,
  <<"enable_auto_type", "enable_auto_type", "optbool">>,
  <<"enable_searching", "enable_searching", "optbool">>,
  <<"icon", "icon", "icon">>,
  <<"is_expanded", "is_expanded", "bool">>,
  <<"last_top_visible_entry", "last_top_visible_entry", "uuid">>,
  <<"name", "name", "text">>,
  <<"notes", "notes", "text">>,
  <<"entries", "entries", "nodes">>,
  <<"groups", "groups", "nodes">>,
  <<"depth", "depth", "depth">> }

\* The five standard strings and a custom one, stored plain or protected.
StringFields == {<<f \o h[1], f, h[2]>> :
    f \in {"title", "username", "password", "url", "notes", "other"},
    h \in {<<".plain", "text">>, <<".prot", "sectext">>}}

EntryFields == TimesFields \cup StringFields \cup {
  <<"uuid", "uuid", "uuid">>,
  <<"parent", "parent", "uuid">>,
  <<"associations", "associations", "count">>,
  <<"assoc_window", "assoc_window", "text">>,
  <<"assoc_keys", "assoc_keys", "text">>,
  <<"auto_type_def_sequence", "auto_type_def_sequence", "text">>,
  <<"auto_type_enabled", "auto_type_enabled", "bool">>,
  <<"auto_type_obfuscation", "auto_type_obfuscation", "obf">>,
  <<"background_color", "background_color", "color">>,
  <<"foreground_color", "foreground_color", "color">>,
  <<"custom_icon_uuid", "custom_icon_uuid", "optuuid">>,
  <<"icon", "icon", "icon">>,
  <<"override_url", "override_url", "text">>,
  <<"tags", "tags", "text">>,
  <<"assoc.item", "assoc.item", "texttext">>,
  <<"strings", "strings", "count">>,
  <<"strings.item.plain", "strings.item.plain", "texttext">>,
  <<"strings.item.prot", "strings.item.prot", "texttext">>,
  <<"strings.key", "strings.key", "strkey">>,
  <<"binaries", "binaries", "count">>,
  <<"bin.plain", "bin.plain", "bytes">>,
  <<"bin.prot", "bin.prot", "bytes">>,
  <<"bin.ref", "bin.ref", "poolref">>,
  <<"bin.key", "bin.key", "text">>,
  <<"bin.item.plain", "bin.item.plain", "textbytes">>,
  <<"bin.item.prot", "bin.item.prot", "textbytes">>,
  <<"bin.item.ref", "bin.item.ref", "texttext">> }

HistoryOnly == {<<"history", "history", "few">>}

\* The sites of the base database. "hist" is a history entry of "entry".
SmallSites == {"meta", "root"}
AllSites == {"meta", "root", "sub", "deep", "other", "entry0", "entry",
             "entry2", "entry3", "hist"}
SitesOf(base) == IF base = "empty" THEN SmallSites ELSE AllSites
FieldsOf(site) ==
  CASE site = "meta" -> MetaFields
    [] site \in {"root", "sub", "deep", "other"} -> GroupFields
    [] site = "hist" -> EntryFields
    [] OTHER -> EntryFields \cup HistoryOnly

\* In an exhaustive run one site stands for the others of its sort.
FocusSites == {"meta", "root", "sub", "entry", "hist"}

Slot(site, f) == <<site, f[2]>>

\* What the file format can hold. The generator is not saved at all, and the
\* parent links are made by opening.
Representable(f, class) ==
  CASE f[3] \in {"text", "poolref"} -> class \notin XmlBad
    [] f[3] = "sectext" -> class # "badutf8"
    [] f[3] = "strkey"  -> class \notin (XmlBad \cup {"std", "stdlower", "stdupper"})
    [] f[3] = "comment" -> class \notin {"n65536", "n65537", "n131072"}
    [] f[3] = "dbtype"  -> class # "kdb1"
    [] OTHER -> TRUE

-----------------------------------------------------------------------------
VARIABLES base,   \* the database the history starts from
          hist,   \* the assignments, in order
          mem,    \* slot -> <<field, class>>
          disk,   \* [ok: BOOLEAN, content] or NoFile
          pc, cycles

vars == <<base, hist, mem, disk, pc, cycles>>
NoFile == [ok |-> FALSE, content |-> <<>>]

Init == /\ base \in Bases
        /\ hist = <<>> /\ mem = <<>> /\ disk = NoFile
        /\ pc = "edit" /\ cycles = 0

Assign(site, f, class) ==
  /\ pc = "edit" /\ Len(hist) < MaxSets
  /\ Slot(site, f) \notin DOMAIN mem
  /\ hist' = Append(hist, <<site, f[1], class>>)
  /\ mem' = (Slot(site, f) :> <<f, class>>) @@ mem
  /\ UNCHANGED <<base, disk, pc, cycles>>

\* Very large values, at a few places.
Huge(site, f) == CASE site = "entry" /\ f[1] \in {"password.prot", "notes.plain"} -> {"n1m"}
                   [] <<site, f[1]>> \in {<<"entry", "bin.prot">>, <<"hist", "bin.plain">>, <<"meta", "binaries.data">>} -> {"b2m"}
                   [] site = "root" /\ f[1] \in {"entries", "groups"} -> {"n3000"}
                   [] site = "meta" /\ f[1] = "custom_icons.data" /\ base = "plain" -> {"b17m"}
                   [] OTHER -> {}
SetAny ==
  \E site \in (FocusSites \cap SitesOf(base)) :
    \E f \in FieldsOf(site) : \E class \in ClassesOf(f[3]) \cup Huge(site, f) : Assign(site, f, class)

\* A random assignment; values the format cannot hold are kept rare, so that
\* most histories get past their saves.
Likely(f, k) == IF k % 40 = 0 THEN ClassesOf(f[3])
                ELSE {c \in ClassesOf(f[3]) : Representable(f, c)}
SetRandom ==
  \E site \in {RandomElement(SitesOf(base))} :
  \E f \in {RandomElement(FieldsOf(site))} :
  \E k \in {RandomElement(0..39)} :
  \E class \in {RandomElement(Likely(f, k))} :
  \/ Assign(site, f, class)
  \/ /\ pc = "edit" /\ Len(hist) < MaxSets      \* the slot is taken
     /\ Slot(site, f) \in DOMAIN mem
     /\ UNCHANGED vars

AllRepresentable == \A s \in DOMAIN mem : Representable(mem[s][1], mem[s][2])

Save == /\ pc = "edit" /\ hist # <<>>
        /\ (Random => Len(hist) = MaxSets)
        /\ pc' = "saved"
        /\ disk' = IF AllRepresentable THEN [ok |-> TRUE, content |-> mem] ELSE disk
        /\ UNCHANGED <<base, hist, mem, cycles>>

Open == /\ pc = "saved" /\ disk.ok
        /\ mem' = disk.content
        /\ cycles' = cycles + 1
        /\ pc' = IF cycles + 1 < MaxCycles THEN "edit2" ELSE "done"
        /\ UNCHANGED <<base, hist, disk>>

\* Saving again what was opened.
Resave == /\ pc = "edit2" /\ pc' = "saved"
          /\ disk' = [ok |-> TRUE, content |-> mem]
          /\ UNCHANGED <<base, hist, mem, cycles>>

Next == (IF Random THEN SetRandom ELSE SetAny) \/ Save \/ Open \/ Resave
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* What is saved is what was in memory, and only if all of it can be held.
Faithful == disk.ok => disk.content = mem
Total == pc = "saved" => (disk.ok <=> AllRepresentable)

Final == pc = "done" \/ (pc = "saved" /\ ~disk.ok)
Emit == Final => PrintT(ToJson([base |-> base, set |-> hist, ok |-> disk.ok]))
=============================================================================

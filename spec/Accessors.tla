----------------------------- MODULE Accessors -----------------------------
(***************************************************************************)
(* The string accessors of an entry, the times of an entry or group, and   *)
(* what new values start with. A string is [st, v]: absent, plain,         *)
(* protected, or protected bytes that are no text; v is the number of a    *)
(* text. "either" is a string whose protection the documentation leaves    *)
(* open (a password set through the general setter).                       *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxOps, Values, Random, Starts, Full

Standard == {"Title", "UserName", "URL", "Notes", "Password"}
Other == {"o1", "o2"}
Keys == Standard \cup Other
TimeFields == {"creation_time", "expires", "expiry_time", "last_accessed", "last_modified", "location_changed", "usage_count"}
Kinds == {"entry", "entry default", "group", "group default", "database"}

Absent == [st |-> "absent", v |-> 0]

VARIABLES strings, times, made, start, hist, done
vars == <<strings, times, made, start, hist, done>>
Pick(S) == IF Random THEN {RandomElement(S)} ELSE S

Init == /\ \E s \in Starts :
             /\ start = s
             /\ strings = [k \in Keys |-> IF s = "absent" THEN Absent ELSE [st |-> s, v |-> IF s = "invalid" THEN 0 ELSE 9]]
        /\ times = [f \in TimeFields |-> 0]
        /\ made = <<>> /\ hist = <<>> /\ done = FALSE

Log(op, k, v, st) == hist' = Append(hist, [op |-> op, k |-> k, v |-> v, st |-> st, strings |-> strings', times |-> times', made |-> made'])

\* The named setters: only passwords are protected.
SetNamed == \E k \in Pick(Standard), v \in Pick(Values) :
  /\ strings' = [strings EXCEPT ![k] = [st |-> IF k = "Password" THEN "protected" ELSE "plain", v |-> v]]
  /\ UNCHANGED <<times, made, start>> /\ Log("set", k, v, "")
SetOther == \E k \in Pick(Keys), v \in Pick(Values) :
  /\ strings' = [strings EXCEPT ![k] = [st |-> IF k = "Password" THEN "either" ELSE "plain", v |-> v]]
  /\ UNCHANGED <<times, made, start>> /\ Log("set other", k, v, "")
\* Edits of the map itself.
Put == \E k \in Pick(Keys), st \in Pick({"plain", "protected", "invalid"}) : \E v \in {Cardinality(Values)} :
  /\ strings' = [strings EXCEPT ![k] = [st |-> st, v |-> IF st = "invalid" THEN 0 ELSE v]]
  /\ UNCHANGED <<times, made, start>> /\ Log("put", k, v, st)
Remove == \E k \in Pick(Keys) :
  /\ strings[k].st # "absent"
  /\ strings' = [strings EXCEPT ![k] = Absent]
  /\ UNCHANGED <<times, made, start>> /\ Log("remove", k, 0, "")
SetTime == \E f \in Pick(TimeFields), v \in Pick({1, 2}) :
  /\ times' = [times EXCEPT ![f] = v]
  /\ UNCHANGED <<strings, made, start>> /\ Log("time", f, v, "")

\* New values have identifiers of their own, the default values have none (0).
New == \E kind \in Pick(Kinds) :
  /\ made' = Append(made, [kind |-> kind, id |-> IF kind \in {"entry default", "group default"} THEN 0 ELSE Len(hist) + 1])
  /\ UNCHANGED <<strings, times, start>> /\ Log("new", kind, 0, "")

Edits == New \/ SetNamed \/ SetOther \/ Put \/ Remove \/ SetTime
Next == /\ ~done
        /\ \/ Len(hist) < MaxOps /\ Edits /\ UNCHANGED done
           \/ Full /\ Len(hist) = MaxOps /\ done' = TRUE /\ UNCHANGED <<strings, times, made, start, hist>>
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* What a getter returns: the number of the text, 0 for nothing.
Get(s, k) == IF s[k].st \in {"absent", "invalid"} THEN 0 ELSE s[k].v

Last == hist[Len(hist)]
Before == IF Len(hist) = 1 THEN [k \in Keys |-> IF start = "absent" THEN Absent ELSE [st |-> start, v |-> IF start = "invalid" THEN 0 ELSE 9]] ELSE hist[Len(hist) - 1].strings
\* A setter changes the value of its own key, and its getter returns what was set.
ReadBack == Len(hist) > 0 /\ Last.op \in {"set", "set other"} => Get(strings, Last.k) = Last.v
OnlyOwn == Len(hist) > 0 => \A k \in Keys : (k # Last.k => strings[k] = Before[k])
Identity == \A i, j \in 1..Len(made) : (i # j /\ made[i].id # 0) => made[i].id # made[j].id
\* A password set by its own setter is never stored plain.
PasswordProtected == Len(hist) > 0 /\ Last.op = "set" => (strings[Last.k].st = "protected" <=> Last.k = "Password")

-----------------------------------------------------------------------------
\* What new values start with (KeePass's defaults; the root group is "Root").
NewEntry == [at_enabled |-> TRUE, at_obf |-> 0, at_seq |-> "t:", icon |-> 0, expires |-> FALSE, usage |-> 0, url |-> "t:", tags |-> "t:"]
NewGroup == [at_seq |-> "t:", icon |-> 48, expires |-> FALSE, usage |-> 0, notes |-> "t:", expanded |-> TRUE]
NewDatabase == [compression |-> "gzip", rounds |-> 10000, version |-> <<3, 1>>, type |-> 2, cipher |-> "aes", stream |-> "salsa20",
  def_user |-> "t:", desc |-> "t:", hist_items |-> 10, hist_size |-> 6291456, maint_days |-> 365, mk_force |-> -1, mk_rec |-> -1,
  name |-> "t:", p_notes |-> FALSE, p_password |-> TRUE, p_title |-> FALSE, p_url |-> FALSE, p_username |-> FALSE, rb_enabled |-> TRUE]

\* Complete histories only, or every prefix.
Emit == (IF Full THEN done ELSE TRUE) =>
  PrintT(ToJson([start |-> start, hist |-> hist, entry |-> NewEntry, group |-> NewGroup, database |-> NewDatabase]))
=============================================================================

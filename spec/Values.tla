------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* The codes of icons, obfuscation types, colors and string names, as      *)
(* KeePass defines them (PwIcon, AutoTypeObfuscationOptions, HTML colors,  *)
(* PwDefs). A behaviour is one value encoded and decoded again, or one     *)
(* code decoded, and encoded again if it was valid.                        *)
(*                                                                         *)
(* A text is a sequence of named characters: "0".."9", "a".."z", "A".."Z", *)
(* "#" are themselves; the others stand for classes of characters that     *)
(* are no part of any code, from which the replay picks.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Deep  \* TRUE for two deviations per text

Icons == << "Key", "World", "Warning", "Server", "MarkedDirectory", "UserCommunication", "Parts", "Notepad",
  "WorldSocket", "Identity", "PaperReady", "Digicam", "IRCommunication", "MultipleKeys", "Energy", "Scanner",
  "WorldStar", "CDRom", "Monitor", "Email", "Configuration", "ClipboardReady", "PaperNew", "Screen",
  "EnergyCareful", "Inbox", "Disk", "Drive", "QuickTime", "EncryptedTerminal", "Console", "Printer", "Icons",
  "Run", "Settings", "WorldComputer", "Archive", "Banking", "Smb", "Clock", "EmailSearch", "PaperFlag", "Memory",
  "RecycleBin", "Note", "Expired", "Info", "Package", "Folder", "FolderOpen", "FolderPackage", "LockOpen",
  "PaperLocked", "Checked", "Pen", "Thumbnail", "Book", "Listing", "UserKey", "Tool", "Home", "Star", "Tux",
  "Feather", "Apple", "Wikipedia", "Money", "Certificate", "Phone" >>
Obfuscations == << "None", "UseClipboard" >>

Digits == << "0", "1", "2", "3", "4", "5", "6", "7", "8", "9" >>
Lower == << "a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z" >>
Upper == << "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z" >>
Where(c, s) == IF \E i \in 1..Len(s) : s[i] = c THEN CHOOSE i \in 1..Len(s) : s[i] = c ELSE 0
Fold(c) == LET i == Where(c, Upper) IN IF i = 0 THEN c ELSE Lower[i]
\* Characters outside ASCII that some functions take for digits, and characters that number parsers let pass.
Strange == {"+", "-", "space", "x", "g", "G", "#", "nul", "two bytes", "three bytes", "four bytes", "digit", "wide digit", "wide letter", "mark"}
\* "digit" stands for a digit of another script.

-----------------------------------------------------------------------------
\* Numbers. The result of decoding is a name, or "error".
DecodeNum(table, n) == IF n \in 0..(Len(table) - 1) THEN table[n + 1] ELSE "error"
EncodeNum(table, v) == Where(v, table) - 1

RECURSIVE Pow(_)
Pow(k) == IF k = 0 THEN 1 ELSE 2 * Pow(k - 1)
Max == 2147483647
\* Numbers around the valid codes, around the powers of two, and those that
\* are the code of a value in their last 8 or 16 bits.
Numbers == (-300..600)
  \cup UNION {{Pow(k) - 1, Pow(k), Pow(k) + 1, -Pow(k) - 1, -Pow(k), -Pow(k) + 1} : k \in 8..30}
  \cup UNION {{65536 + i, 256 * 255 + i, i - 65536, 16777216 + i, i - Max, i - Max - 1, Max - i} : i \in 0..70}

-----------------------------------------------------------------------------
\* Colors.
HexValue(c) == IF Where(c, Digits) # 0 THEN Where(c, Digits) - 1
               ELSE IF Where(Fold(c), Lower) \in 1..6 THEN 9 + Where(Fold(c), Lower) ELSE 16
HexDigit(n) == IF n < 10 THEN Digits[n + 1] ELSE Lower[n - 9]
IsColor(t) == Len(t) = 7 /\ t[1] = "#" /\ \A i \in 2..7 : HexValue(t[i]) < 16
DecodeColor(t) == IF IsColor(t) THEN [k \in 1..3 |-> 16 * HexValue(t[2 * k]) + HexValue(t[2 * k + 1])] ELSE <<>>
EncodeColor(rgb) == <<"#">> \o [i \in 1..6 |-> LET b == rgb[(i + 1) \div 2] IN IF i % 2 = 1 THEN HexDigit(b \div 16) ELSE HexDigit(b % 16)]

Bases == { <<"#", "0", "0", "0", "0", "0", "0">>, <<"#", "1", "2", "3", "4", "5", "6">>, <<"#", "a", "B", "7", "8", "F", "e">> }
HexSample == {"0", "7", "9", "a", "f", "A", "F"}
Deviant(t) == {[t EXCEPT ![i] = c] : i \in 1..Len(t), c \in Strange \cup HexSample}
              \cup {SubSeq(t, 1, i - 1) \o SubSeq(t, i + 1, Len(t)) : i \in 1..Len(t)}
              \cup {SubSeq(t, 1, i) \o <<c>> \o SubSeq(t, i + 1, Len(t)) : i \in 0..Len(t), c \in Strange \cup {"0", "a"}}
              \cup {SubSeq(t, 1, i) : i \in 0..Len(t)}
Pairs(S) == UNION {Deviant(t) : t \in S}
ColorTexts == LET one == Pairs(Bases) IN Bases \cup one \cup (IF Deep THEN Pairs(Pairs({<<"#", "a", "B", "7", "8", "F", "e">>})) ELSE {})
Bytes == 0..255
ColorValues == {<<b, 0, 255>> : b \in Bytes} \cup {<<255, b, 0>> : b \in Bytes} \cup {<<0, 255, b>> : b \in Bytes}
               \cup {<<b, b, b>> : b \in Bytes}

-----------------------------------------------------------------------------
\* String names.
Names == [Notes |-> <<"N","o","t","e","s">>, Password |-> <<"P","a","s","s","w","o","r","d">>, Title |-> <<"T","i","t","l","e">>,
          Url |-> <<"U","R","L">>, Username |-> <<"U","s","e","r","N","a","m","e">>]
Folded(t) == [i \in 1..Len(t) |-> Fold(t[i])]
\* The name that a text stands for, or "Other".
DecodeName(t) == IF \E n \in DOMAIN Names : Folded(Names[n]) = Folded(t)
                 THEN CHOOSE n \in DOMAIN Names : Folded(Names[n]) = Folded(t) ELSE "Other"
EncodeName(n, t) == IF n = "Other" THEN t ELSE Names[n]
Cases(t) == {[i \in 1..Len(t) |-> IF u[i] THEN (LET k == Where(Fold(t[i]), Lower) IN Upper[k]) ELSE Fold(t[i])] : u \in [1..Len(t) -> BOOLEAN]}
NameDev == {"space", "nul", "two bytes", "mark", "-", "s", "0"}
Around(t) == {SubSeq(t, 1, i - 1) \o SubSeq(t, i + 1, Len(t)) : i \in 1..Len(t)}
             \cup {SubSeq(t, 1, i) \o <<c>> \o SubSeq(t, i + 1, Len(t)) : i \in 0..Len(t), c \in NameDev}
             \cup {[t EXCEPT ![i] = c] : i \in 1..Len(t), c \in {"two bytes", "wide letter", "space"}}
             \cup {SubSeq(t, 1, i) : i \in 0..Len(t)}
             \cup {[i \in 1..Len(t) |-> t[Len(t) + 1 - i]]}
             \cup {t \o s : s \in {Names[n] : n \in DOMAIN Names}}
NameTexts == UNION {Cases(Names[n]) : n \in DOMAIN Names}
             \cup UNION {Around(Names[n]) \cup Around(Folded(Names[n])) : n \in DOMAIN Names}
             \cup {<<>>, <<"wide letter">>, <<"four bytes", "mark">>, <<"O", "t", "h", "e", "r">>, <<"u", "s", "e", "r", "space", "n", "a", "m", "e">>}

-----------------------------------------------------------------------------
VARIABLES op,    \* what is done: the kind of value and the direction of the first step
          arg,   \* the value, or the code
          out,   \* the result of the first step
          back,  \* the result of the inverse step on it
          step
vars == <<op, arg, out, back, step>>
None == "nothing yet"

Init == step = 0 /\ (
        \/ \E n \in Numbers : op = "icon code" /\ arg = n /\ out = None /\ back = None
        \/ \E n \in Numbers : op = "obfuscation code" /\ arg = n /\ out = None /\ back = None
        \/ \E v \in 1..Len(Icons) : op = "icon" /\ arg = Icons[v] /\ out = None /\ back = None
        \/ \E v \in 1..Len(Obfuscations) : op = "obfuscation" /\ arg = Obfuscations[v] /\ out = None /\ back = None
        \/ \E t \in ColorTexts : op = "color text" /\ arg = t /\ out = None /\ back = None
        \/ \E v \in ColorValues : op = "color" /\ arg = v /\ out = None /\ back = None
        \/ \E t \in NameTexts : op = "name" /\ arg = t /\ out = None /\ back = None)
First == step = 0 /\ step' = 1 /\ UNCHANGED <<op, arg, back>> /\
  out' = CASE op = "icon code" -> DecodeNum(Icons, arg)
           [] op = "obfuscation code" -> DecodeNum(Obfuscations, arg)
           [] op = "icon" -> EncodeNum(Icons, arg)
           [] op = "obfuscation" -> EncodeNum(Obfuscations, arg)
           [] op = "color text" -> DecodeColor(arg)
           [] op = "color" -> EncodeColor(arg)
           [] op = "name" -> DecodeName(arg)
Second == step = 1 /\ step' = 2 /\ UNCHANGED <<op, arg, out>> /\
  back' = CASE op = "icon code" -> IF out = "error" THEN "error" ELSE EncodeNum(Icons, out)
           [] op = "obfuscation code" -> IF out = "error" THEN "error" ELSE EncodeNum(Obfuscations, out)
           [] op = "icon" -> DecodeNum(Icons, out)
           [] op = "obfuscation" -> DecodeNum(Obfuscations, out)
           [] op = "color text" -> IF out = <<>> THEN <<>> ELSE EncodeColor(out)
           [] op = "color" -> DecodeColor(out)
           [] op = "name" -> EncodeName(out, arg)
Next == First \/ Second
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Done == step = 2
\* Encoding and decoding give the value back.
RoundTrip == Done /\ op \in {"icon", "obfuscation", "color"} => back = arg
\* A valid code is the code of its value, up to the case of letters.
Exact == /\ (Done /\ op \in {"icon code", "obfuscation code"} /\ out # "error" => back = arg)
         /\ (Done /\ op = "color text" /\ out # <<>> => back = Folded(arg))
         /\ (Done /\ op = "name" => Folded(back) = Folded(arg) /\ (out = "Other" => back = arg))
\* Different values have different codes.
Injective == /\ \A i, j \in 1..Len(Icons) : Icons[i] = Icons[j] => i = j
             /\ \A i, j \in 1..Len(Obfuscations) : Obfuscations[i] = Obfuscations[j] => i = j
             /\ \A m, n \in DOMAIN Names : Folded(Names[m]) = Folded(Names[n]) => m = n
ASSUME Injective
ASSUME Len(Icons) = 69
Emit == Done => PrintT(ToJson([op |-> op, arg |-> arg, out |-> out, back |-> back]))
=============================================================================

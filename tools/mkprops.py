#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"state":state or [],"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}})
X='src/format/kdb2_xml_reader.rs'; XW='src/format/kdb2_xml_writer.rs'; R='src/format/kdb2_reader.rs'; W='src/format/kdb2_writer.rs'; XM='src/format/xml.rs'; D='src/types/database.rs'; G='src/types/group.rs'; E='src/types/entry.rs'
p("C01","Saving and reopening gives back the same database",
 "Saving a database and opening the result with its key gives a database with the same content: the header settings (comment, compression, transform rounds, version), every metadata field, the group tree with its order, and every field of every group, entry and history entry, with each string and binary keeping its value and its protected or plain state. A database that holds something the format cannot represent makes save return an error; save never succeeds with a file that does not open again or that opens with other content. (Only the generator name, the parent links, and the history of history entries are allowed to differ.)",
 ["inputs","histories"],"For every database value: all fields, all value classes (empty, white space, markup, any Unicode, extreme numbers and dates, small to multi-megabyte sizes), all tree shapes, and repeated save/open cycles.",
 "The tests save and reopen one empty database and one small hand-made tree; no test reaches empty or white space values, markup, extremes, history, binaries, icons, custom data or large content.",
 [W,XW,R,X,XM,'src/compression/gzip.rs','src/crypto/aes256.rs'],[("field by field XML writer","%s: write_*_section"%XW),("field by field XML reader","%s: read_*"%X),("text escaping and typed values",XM)],["bytes given to the writer by Database::save","Database returned by Database::open"],
 [{"name":"Database","meaning":"the whole in-memory database","where":D}])
p("C02","A database opens only with the key it was saved with",
 "A saved file opens with a composite key equal to the one the database had when it was saved, and with no other key: any different password (every byte counts, also case, white space and empty), different key file content, or different combination of password and key file makes open return an error. Keys built the same way from the same password and key file content are equal, whatever the key file's format on disk, and the derivation is the KDBX 3.1 one, so other programs with the same password and key file can open the file. Changing the database's key takes effect for the next save and only for it.",
 ["inputs","histories"],"For every pair of keys built from passwords and key files, every number of transform rounds, and every history of key changes and saves.",
 "The tests use three fixed files with one right and at most one wrong key each; they do not vary the pair of keys, the rounds, or a key change between saves.",
 ['src/types/composite_key.rs','src/types/transformed_key.rs','src/types/master_key.rs','src/crypto/sha256.rs',R,W],[("key composition","src/types/composite_key.rs: from_password/from_key_file/from_both"),("key transformation","src/types/transformed_key.rs: TransformedKey::new"),("stream start bytes check","%s: read"%R)],["Result of Database::open"])
p("C03","Corruption of a saved file is detected",
 "Whatever is changed in a saved file (bytes flipped, removed, added or moved, header fields altered, parts of another saved file spliced in, or a payload re-encrypted with blocks that do not match their hashes, numbering or the header hash), opening it either returns an error or returns exactly the database that was saved. It never returns a database with different content or settings.",
 ["inputs","fault_sequences"],"For every saved file and every modification of its bytes, including every single byte of the header and payload, truncation at every length, and structured edits by someone who can re-encrypt the payload without updating hashes.",
 "The tests open only intact files; no test modifies a saved file.",
 [R,D],[("header hash comparison","%s: open_kdb2"%D),("block id and block hash checks","%s: read_xml_bytes"%R),("stream start bytes check","%s: read"%R)],["Result of Database::open"])
p("C04","Opening arbitrary input never panics",
 "For any sequence of bytes and any key, opening it as a database or as a key file returns a database or key file, or an error; it never panics, overflows the stack, or loops without end. The same holds for payloads that are correctly encrypted but whose blocks, compressed data or XML are malformed or nested arbitrarily deep.",
 ["inputs"],"For every byte string (with a feasible number of transform rounds), including well-formed encryption around malformed content of every kind.",
 "The tests only open well-formed files.",
 [R,X,XM,'src/format/kf_reader.rs','src/types/color.rs','src/crypto/aes256.rs'],[("typed errors for malformed content",XM),("bounds on reads","%s: read_bytes_size"%R)],["Result of Database::open and KeyFile::open, or a panic"])
p("C05","The container format is accepted and rejected as KDBX 3.1 says",
 "A file whose signatures, header fields (in any order, a repeated field counting with its last value), encryption, block sequence and compression are valid opens, also when its payload is cut into many blocks. A file that deviates is rejected with the error that names the deviation: wrong signature or KeePass 1 file, unknown header field, wrong field size, unsupported cipher, compression or stream cipher, missing field, wrong key, wrong block number, wrong block hash, wrong final block hash, wrong header hash, or an I/O error for a file that ends too early.",
 ["inputs"],"For every sequence of container elements: every header order, duplicate and omission, every deviation at every position, every division of the payload into blocks, both compressions.",
 "The tests contain no deviating file and only files whose payload is a single block with headers in KeePass order.",
 [R,D,'src/format/kdb2.rs','src/types/error.rs'],[("header loop","%s: read"%R),("block loop","%s: read_xml_bytes"%R),("signature checks","%s: open"%D)],["Result of Database::open and the error variant"])
p("C06","Protected values stay in step with the cipher stream",
 "Every protected value in a file is decrypted with the key stream bytes at its own position in document order, so it comes out as the plain text that was stored, whatever other protected values come before it: empty ones, strings, binaries, values in history entries, values in the metadata's binary pool, values longer than any cipher block, and values inside elements the reader does not know. Saved files use the key stream in the same way.",
 ["inputs"],"For every number, size, kind, nesting and order of protected values in a document.",
 "The fixed test files hold a few short protected strings and no protected binaries, history with protected values or unknown elements.",
 [X,XW,XM,'src/crypto/salsa20.rs'],[("one cipher passed through the whole traversal",X),("skipping of unknown elements","%s: skip_element"%XM)],["string and binary values of the opened database","protected values in the saved XML"])
p("C07","A database document is interpreted as KeePass wrote it",
 "Opening a file gives each known element's value to the field it stands for, wherever it stands among its siblings; groups, entries, history entries and auto-type associations keep their document order, absent elements leave the default, empty elements mean an empty value, and a repeated element or key counts with its last value. Elements the reader does not know have no effect at all on the rest, whatever they contain. A value that does not have its element's type (base64, number, boolean, date, color, icon, UUID) makes open return an error.",
 ["inputs"],"For every well-formed KeePass document over the known elements in any order and multiplicity, with unknown elements anywhere.",
 "The tests interpret three fixed documents, written by KeePass in one element order.",
 [X,XM,'src/format/kdb2.rs'],[("per-element dispatch",X),("typed value readers",XM)],["fields of the opened database"])
p("C08","Opened groups and entries know their parent",
 "In every opened database the parent link of each entry and of each group below the root is the identifier of the group that contains it, and the root group's parent link is the nil identifier. This holds whatever the nesting, the order of the elements in the file, or identifiers that occur more than once, and also after any number of edits followed by save and open.",
 ["inputs","histories"],"For every tree shape, every element order in the document and every history of edits, saves and opens.",
 "One test checks one fixed tree in which identifiers precede the children.",
 [X],[("parent assignment after a group is complete","%s: read_group"%X)],["Entry.parent and Group.parent of the opened database"])
p("C09","Traversal visits every group exactly once, breadth first",
 "Iterating over a group yields the group itself and every group below it exactly once, level by level, siblings and cousins in their stored order; iteration for modification yields the same groups in the same order, and changes made through it are seen afterwards on exactly those groups and nowhere else. No two references handed out by one mutable traversal give access to the same group.",
 ["inputs"],"For every tree shape, including duplicated identifiers and names, wide and deep trees.",
 "One test iterates one small tree.",
 [G],[("queue of pending groups","%s: Iter, IterMut"%G)],["sequence of groups from Group::iter and Group::iter_mut"])
p("C10","Lookup by identifier returns the first match, mutable or not",
 "Looking up an entry or group by identifier returns it if and only if it occurs in the tree (the root group included, history entries not), and with duplicates the one that comes first in traversal order. The mutable lookup returns the same object, and changes through it are visible through the immutable one and leave everything else as it was.",
 ["inputs","histories"],"For every tree, every identifier, present, absent or duplicated, and every history of additions and removals.",
 "The documentation examples look up one entry and one group directly below the root.",
 [D,G],[("search over the traversal","%s: get_entry, get_group"%D)],["Database::get_entry(_mut), Database::get_group(_mut)"])
p("C11","Search finds exactly the matching entries and groups",
 "Searching for entries returns, each once and in traversal order, exactly the entries that have an unprotected string value containing the query, ignoring upper and lower case of every letter; searching for groups does the same for group names. Protected values, string names, history entries and other fields never make an entry match, an empty query matches everything that has such a value, and the mutable searches return the same objects in the same order.",
 ["inputs"],"For every tree, every assignment of plain and protected strings, and every query in any script.",
 "The tests search for a handful of ASCII words in one tree.",
 [D],[("case folding and substring test","%s: entry_contains_string, find_*"%D)],["Database::find_entries(_mut), Database::find_groups(_mut)"])
p("C12","Adding and removing changes exactly one child",
 "Adding an entry or group appends it as the last child of that group and changes nothing else. Removing by identifier removes and returns the first direct child with that identifier, keeping the order of the others, never touches deeper levels, and returns nothing and changes nothing when no direct child has it.",
 ["histories"],"For every sequence of additions and removals on every tree, including duplicated identifiers.",
 "The tests add and remove single children in fixed trees.",
 [G],[("vector push and positional remove","%s: add_*, remove_*"%G)],["entries and groups of every group after each operation"])
p("C13","Entry accessors read and write their own field",
 "Setting the title, user name, URL, notes, password or another string of an entry changes that string only, the matching getter then returns exactly the value set, and only passwords are stored protected by default; a getter returns the value whether it is stored plain or protected, and nothing when the string is absent or its bytes are not text. New databases, groups and entries start with the documented defaults and with identifiers that are unique and not nil.",
 ["inputs","histories"],"For every sequence of accessor calls and every text value.",
 "The tests set each field once to one fixed word.",
 [E,'src/types/string_value.rs','src/types/string_key.rs',D,G],[("keyed string map","%s: set_*, other"%E)],["Entry getters, Entry.strings"])
p("C14","Every save uses fresh random values",
 "Every save draws a new master seed, transform seed, initialisation vector, protected stream key and set of stream start bytes from a cryptographic random source: within one file they differ from each other, across saves (also of the same unchanged database, or of a reopened one) none of them repeats, and none is constant or partly constant. New key files and new identifiers are random in the same way, and saving does not change the database.",
 ["histories"],"For every history of saves, opens and key creations.",
 "One test checks that the random generator gives two different values; none looks at what a save writes.",
 [W,'src/crypto/random_gen.rs','src/types/key_file.rs'],[("random generator per save","%s: write"%W)],["header fields and stream start bytes of saved files"])
p("C15","Reading and writing work with any conforming stream",
 "Opening or saving a database or key file gives the same result on every stream that obeys the standard read and write contracts as on an in-memory buffer, however the stream divides the data into short reads or writes and however often it reports an interruption. If the stream reports an error, refuses to accept data, or ends early at any point, the operation returns an error: open never returns a database from a partial read, and save never reports success unless every byte was accepted, in order and once.",
 ["fault_sequences"],"For every sequence of chunk sizes, interruptions and failures at every position, for database and key file, reading and writing.",
 "The tests use files and vectors, which never split, interrupt or fail.",
 ['src/io/log_reader.rs','src/io/log_writer.rs',R,W,'src/format/kf_reader.rs','src/format/kf_writer.rs',D],[("exact reads and complete writes","%s, %s"%(R,W)),("logging of header bytes","src/io/log_reader.rs, src/io/log_writer.rs")],["calls on the user's Read/Write and the Result"])
p("C16","Key files are read and written in all three formats",
 "A file of 32 bytes is a binary key, a file of 64 hexadecimal digits (either case) is that key, and an XML key file gives its base64 data, wherever its elements stand and whatever unknown elements surround them; the key and the format survive saving and opening. A 64-byte file that is not hexadecimal, an XML file of another version, without key data, with invalid base64 or not well-formed, and any other content is rejected with an error.",
 ["inputs"],"For every key, every file content and every length.",
 "The tests open one file of each format.",
 ['src/format/kf_reader.rs','src/format/kf_writer.rs','src/format/kf.rs','src/types/key_file.rs'],[("dispatch on the length","src/format/kf_reader.rs: read"),("hex and XML parsing","src/format/kf_reader.rs")],["Result of KeyFile::open, bytes written by KeyFile::save"])
p("C17","Protected values and keys are never exposed",
 "The debug output of any value (database, entry, string, binary, key, key file) never contains the text or bytes of a protected string, protected binary, password, or key, and neither does an error that a failing open or save returns. In a saved file no protected value appears as plain text in the XML inside the encryption, in any position including history entries, and the file itself contains none of the content in clear.",
 ["inputs"],"For every database with protected values in any position and every key.",
 "No test inspects debug output, errors or the XML that is written.",
 ['src/types/string_value.rs','src/types/binary_value.rs','src/types/composite_key.rs','src/types/key_file.rs',XW],[("secret wrapper type","src/types/string_value.rs, src/types/composite_key.rs"),("protected attribute and stream cipher","%s: write_string_section, write_binary_section"%XW)],["Debug output","display and debug output of errors","decrypted XML of saved files"])
p("C18","Saved files conform to KDBX 3.1 for other programs",
 "Every file that save produces is a valid KDBX 3.1 file for a strict independent reader: signatures, exactly one of each required header field with its exact size, the stated compression, correctly padded AES-CBC payload, start bytes, blocks numbered from zero with correct hashes and a proper final block, the header hash, and well-formed XML in the KeePass structure with correctly typed values. What that reader finds in the file is the content of the database that was saved.",
 ["inputs"],"For every database that can be saved.",
 "The tests read saved files back only with the same library, so errors that reader and writer share stay invisible.",
 [W,XW,XM,'src/format/kdb2.rs'],[("header and block writer",W),("XML writer",XW)],["bytes given to the writer"])
p("C19","A file from another program survives open, save and open",
 "Opening any valid file written by another program, saving it and opening it again gives the same content as the first open, and editing one thing in between changes only that thing. The compression, transform rounds, comment and version of the file are kept.",
 ["inputs","histories"],"For every valid KDBX 3.1 file, with any header order, blocks, element order, formatting, reference, absence of elements, and every single edit.",
 "The tests open files from other programs but never save them again.",
 [D,R,W,X,XW],[("every field read is also written","%s and %s"%(X,XW))],["content after the first and second open"])
p("C20","Value encodings are total, one-to-one and strict",
 "Icons, obfuscation types, colors and the standard string names have codes that decode to the same value, and different values have different codes, which are those KeePass uses. Decoding a number or text that is not a valid code returns an error and never panics; a string name that is not a standard one (in any letter case) is a custom name and keeps its exact text.",
 ["inputs"],"For every 32-bit number and every text.",
 "The tests cover a table of the valid codes and a few invalid ones.",
 ['src/types/icon.rs','src/types/obfuscation.rs','src/types/color.rs','src/types/string_key.rs'],[("match tables","src/types/icon.rs, src/types/obfuscation.rs"),("hex parsing","src/types/color.rs")],["return values of from_i32/to_i32, from_hex_string/to_hex_string, from_string/to_string"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P:
        assert len(x['title'])<=80,x['title']
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))

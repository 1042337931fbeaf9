T = "TLA+ specification, behaviours generated with TLC replayed in the library"
CHECKS = {
    "C01": (T, "Every class of value in every kind of slot, one at a time, and random combinations over two save and open cycles. Within a class the concrete values are sampled."),
    "C18": (T + ", files read by an independent strict reader", "Every class of value in every kind of slot, one at a time, and random combinations. The strict reader is written from the format, and shares AES and SHA-256 with the library."),
    "C19": (T + ", from files of an independent writer", "Every class of value in every kind of slot, every dimension of style one at a time, and random combinations with edits."),
    "C05": (T, "Every token of a file with every deviation in it, every pair of deviations, in files that differ from the basic one in one setting; random orders of the fields and up to three deviations. Bytes inside a deviation are sampled."),
    "C06": (T + ", and saved files read by an independent strict reader", "Every place of a protected value with every class of neighbour before and after it (two children in every container, three in the containers that hold values), random whole documents, and saved files of every class of content."),
    "C07": (T, "Every pair of children in every container, every class of value of every element, unknown and misplaced elements in every container; random whole documents. Values within a class are sampled."),
    "C08": (T, "Every order of up to four children of a group over identifiers, entries, groups and unknown elements; random whole documents."),
    "C09": (T, "Every tree of up to four groups with every assignment of two identifiers and one entry; random histories of 40 operations on trees of up to 30 nodes. The aliasing of references is judged by addresses."),
    "C10": (T, "Every lookup in every tree of up to three groups and two entries, with every assignment of two identifiers; random histories of 40 operations."),
    "C11": (T, "Every text of up to three letters against every query of up to two, over letters with case, without case, and with two lower case forms, and entries of two strings; every search in every small tree; random histories. Abstract letters stand for sampled letters of many scripts."),
    "C12": (T, "Every addition, removal and move in every tree of up to three groups and two entries, with every assignment of two identifiers; every sequence of three operations from one group; random histories of 40 operations."),
    "C20": (T, "Every value and its code; every number around the valid codes and around the powers of two; texts of one deviation from a color or from a string name, every mixture of case of every standard name. The closed form of the specification is evaluated on every color and every 32-bit number."),
    "C13": (T, "Every sequence of two operations (three in the thorough tier) on seven strings and seven times, from entries with all strings absent, plain, protected or no text; random histories of 40 operations. After every step the whole entry and group and every getter are compared."),
    "C02": (T, "Every pair of 223 keys over passwords, key file contents and both, with digests as symbolic terms; every change in one place of passwords and key files of 1 to 100 bytes; random histories of 16 key changes, saves and opens. The hash is taken to be one-to-one in the specification, and the real derivation is compared with an independent one."),
    "C16": (T, "Plain files of 16 lengths and 12 kinds of content, every deviating character at every position of a hexadecimal key; XML documents of up to three (thorough: four) children with every kind of Meta and Key element, and every flaw in well-formedness; every key format saved and opened."),
    "C14": ("TLA+ specification, histories generated with TLC replayed in the library, and the recorded draws validated as a trace with TLC", "Random histories of 24 operations in several processes at once, with failing saves, reopened and unchanged databases. No drawn value may share 8 aligned bytes with another or with a digest, sum or difference of others; every bit takes both values. A generator with a small hidden state that never repeats in the run is not seen."),
    "C17": (T, "Every slot of a string or binary, protected or plain, alone and in pairs, and every kind of key; random histories of 30 changes with history entries, reopening and new keys, observed after every step. The specification derives what an observer learns from symbolic terms; the library's outputs are searched for windows of ten bytes in several encodings, and compared between two databases that differ only in their secrets. Errors: the files saved in these databases are damaged in their values, structure and end, opened again, and saved to writers that fail; what the errors display is searched likewise."),
    "C15": ("TLA+ specification, stream behaviours generated with TLC replayed in the library, and the recorded calls validated as traces with TLC", "Every behaviour of the stream against the specification's client on a file of 13 bytes. Against the library: an error, a short end, a refusal and interruptions at every one of the first and last 320 bytes (thorough: 2500) and at 63 places between, with eight chunk sizes at fewer places, for opening and saving databases and key files of every format; random answers call by call."),
    "C03": (T, "Every change and every two changes of fields, cipher blocks and payload blocks, four at random, and twelve changes at every byte from both ends of file and payload. Values inside a change are sampled. Hashes are one-to-one in the specification."),
    "C04": (T + " as input", "Every two tokens (any, then one that the context knows) and every three tokens in 24 places of a document or key file, nesting of every container up to 8000 deep, 64 kinds of content in every value, every sequence of two (thorough: three) blocks over four numbers, three hashes and seven sizes, cut and changed compressed data and padding, every header identifier with 16 sizes, changes at 1500 places (thorough: all) of a document, its compressed form and key files; random documents of 40 tokens. Opened in threads with 2 MB of stack, overflow checks on. Which answer is given is not judged; memory use and a large number of transform rounds are not either."),
}

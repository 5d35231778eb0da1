#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json, and the list of repairs in known-findings.json."""
import json, os, subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None, level="exploration", technique="", note="", na=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                mechanism=mechanism, observe=observe, state=state or [], level=level, technique=technique, note=note, na=na)

P = []
Y = "src/yaml/"

P.append(prop("C01", "A document which is not edited is written byte for byte as it was read",
 "For every byte string that parses successfully, writing the document without having edited it, with `Document::write_to` as well as (for UTF-8 input) through `Display`, produces exactly the input bytes: comments, whitespace, line endings, quoting, escapes, separators, block scalar headers, document delimiters and headers included. Reading values, iterating and looking up keys does not change what is written.",
 ["inputs"], "every byte string accepted by the parser",
 "The tests compare some fifty hand-written documents; the guarantee is over all inputs, and it breaks at combinations of tokens nobody wrote down (this exploration found more than ten such inputs on the original tree).",
 [Y+"parsing.rs", Y+"raw.rs", Y+"document.rs"],
 [("the parser keeps the whitespace, prefix and suffix of each value", Y+"parsing.rs"), ("the writers put them back in order", Y+"raw.rs Raw::display / Raw::write_to")],
 ["nondestructive::yaml::from_slice", "Document::write_to", "Display for Document"],
 technique="bounded-exhaustive enumeration of inputs (all byte strings and token strings up to a length, all 1- and 2-edit mutants of a corpus) executed on the real parser and writers",
 note="Exhaustive up to the stated lengths over a byte alphabet with one representative of each class the grammar distinguishes; executed on the real code, nothing is modelled. Longer inputs are covered by the mutants of a corpus and by size-parametrised documents only."))

P.append(prop("C02", "Parsing any input terminates with a document or with an error inside of it",
 "For every byte string, parsing returns, without panicking, aborting or running in a loop, either a document all of whose values can be visited, or an error which has a message and a position within the input. Parsing the same bytes again, from a string or a slice, gives the same outcome.",
 ["inputs"], "every byte string",
 "The tests contain almost no malformed documents; totality is over all inputs (on the original tree, a single quote followed by the end of input hangs the parser).",
 [Y+"parsing.rs", Y+"error.rs"],
 [("end of input is a sentinel byte each loop has to stop at", Y+"parsing.rs"), ("errors carry the span they were raised at", Y+"error.rs")],
 ["yaml::from_slice", "yaml::Error", "visiting every value"],
 technique="bounded-exhaustive enumeration of inputs (all byte strings and token strings up to a length, all truncations, mutants and joins of a corpus) executed on the real parser under a watchdog",
 note="Exhaustive within the stated lengths; a hang or an abort is detected from outside of the process, which runs the explorer as a child. Nesting deep enough to exhaust the stack is a known finding (known-findings.json)."))

P.append(prop("C03", "A document denotes the tree of mappings, sequences and scalars that is written",
 "Parsing a document in the supported YAML subset yields the tree that YAML assigns to it: the entries of every block and inline mapping and sequence, in the order in which they are written, with their keys and values and under the right parent, whatever the indentation, blank lines, comments, separators, trailing commas or document headers around them. Looking up a key finds the first entry with that key, looking up an index the entry at that index, and nothing is found for a key or an index which is not there.",
 ["inputs"], "every document of the supported subset (no anchors, tags, complex keys or multi-line plain scalars)",
 "Parsing and indentation are only tested on a few shapes; the guarantee is over all nestings of block and inline collections and all layouts of them.",
 [Y+"parsing.rs", Y+"mapping/mapping.rs", Y+"sequence/sequence.rs", Y+"mapping/iter.rs", Y+"sequence/iter.rs"],
 [("entries are nested by the indentation of what precedes them", Y+"parsing.rs Parser::mapping / Parser::sequence"), ("lookup scans the items of a collection", Y+"mapping/mapping.rs, "+Y+"sequence/sequence.rs")],
 ["Value::as_any", "Mapping::get/iter", "Sequence::get/iter"],
 technique="bounded-exhaustive enumeration of trees times layouts from a reference renderer, compared with the real parser, the renderer itself cross-checked against libyaml",
 note="Every tree within the node budget, with every combination of a bounded number of layout deviations; the reference data is independent of the code and is cross-checked with libyaml for each document both read in the same way."))

P.append(prop("C04", "Scalars denote the value YAML assigns to their text",
 "A scalar written on one line has the value its text denotes: single-quoted text with doubled quotes, double-quoted text with the escapes of YAML, plain text without the whitespace or comment around it, `true`/`false` as booleans, `null`/`~`/nothing as null, and decimal numbers as numbers, the same in an entry of a block or inline collection, or as the root; a key is the string its text denotes. Plain text which is not of one of these forms, and any quoted text, is a string. An escape which is not valid is an error.",
 ["inputs"], "every scalar text, in every position",
 "The tests contain a handful of strings and numbers; which text is a number or an escape is a language with corner cases at every combination of characters.",
 [Y+"parsing.rs", Y+"number.rs", Y+"value.rs"],
 [("scalar classification while parsing", Y+"parsing.rs"), ("unescaping of quoted strings", Y+"parsing.rs double_quoted / single_quoted")],
 ["Value::as_any", "Value::as_str/as_bstr/as_bool/as_number/is_null"],
 technique="bounded-exhaustive enumeration of scalar texts over the characters of each sub-grammar, in every position, compared with an independent reference reader cross-checked with libyaml",
 note="All texts up to a length over the characters each sub-grammar distinguishes, in six positions; the reference reader is written from the YAML specification. A backslash before a backslash reads as a quote, which a test of the repository pins; such texts are left out."))

P.append(prop("C05", "Setting a value changes only the bytes of that value",
 "Replacing a value through a setter leaves every byte of the document outside of the old value unchanged, in place and in order: comments, whitespace, separators, other keys and values. The only exceptions are whitespace needed to keep the new value apart from its key (when the old value was written as nothing), whitespace in front of a value which becomes nothing, and, after a block scalar, whitespace and comments that would become part of it; the new value is then read back as what was set, and every other value as before.",
 ["inputs", "programs"], "every document, every value in it, every scalar setter",
 "Tests edit a few values in fixed documents; locality is over all documents, positions and setters.",
 [Y+"value_mut.rs", Y+"raw.rs", Y+"data.rs"],
 [("values are replaced in place in the arena, layout is kept apart from them", Y+"data.rs Data::replace / Data::replace_with")],
 ["ValueMut::set_*", "Document::write_to"],
 technique="bounded-exhaustive enumeration of documents, values in them and setters, with an exact byte-level oracle for the result",
 note="Every document of the reference renderer within its bounds, times every value in it, times every setter, on the real code; the expected bytes come from the renderer's positions."))

P.append(prop("C06", "Inserting and removing entries leaves the rest of the document as it is",
 "Removing an entry of a mapping or a sequence, clearing a collection, inserting a new key, or pushing an item, changes only the bytes of that entry (with its comment on the same line) and of the separator that belongs to it; all other bytes stay the same and in order. A new entry is put after the last one: on a line of its own with the indentation of the other entries of a block collection, or on the same line after a separator in an inline collection, and with the separator in front of its value that was asked for. After a block scalar, whitespace or comments that would otherwise become part of it may be moved or dropped.",
 ["inputs", "programs"], "every document, every collection in it, every removal, clear, insertion and push",
 "Tests insert and remove a few entries in fixed documents; the guarantee is over all layouts, positions and kinds of collections.",
 [Y+"mapping/mapping_mut.rs", Y+"sequence/sequence_mut.rs", Y+"raw.rs", Y+"data.rs"],
 [("an entry owns the whitespace in front of it", Y+"data.rs"), ("new entries copy the indentation of their collection", Y+"raw.rs make_indent, "+Y+"mapping/mapping_mut.rs, "+Y+"sequence/sequence_mut.rs")],
 ["MappingMut::insert*/remove/clear", "SequenceMut::push*/remove/clear", "Document::write_to"],
 technique="bounded-exhaustive enumeration of documents, collections in them and entry edits, with an exact byte-level oracle for the result",
 note="Every document of the reference renderer within its bounds, times every collection, times every edit of an entry, on the real code."))

H = "explicit-state exploration of every edit history up to a depth on the real implementation, in lock-step with a reference model that is compared with it after every step"
HN = "Every history over the stated alphabets and starting documents up to the stated depth is executed on the real code, so each model trace is replayed against the implementation by construction. Longer histories are covered only by short ones repeated, and operations outside of the alphabets by single-step checks."
def hist(id, title, statement, why, files, mechanism, observe, what, extra=""):
    P.append(prop(id, title, statement, ["histories"], "every document, and every finite history of edits of it", why, files, mechanism, observe,
      state=[dict(name="document", meaning="the data and the bytes of the document after each edit", where=Y+"data.rs Data")],
      level="model_checking", technique=H+": "+what, note=HN+extra))

hist("C07", "The data read from a document is that of its history of edits",
 "After any sequence of setting, inserting, re-inserting, pushing, removing and clearing, however the values are reached (directly, through nested mutable references, or by id), the document holds exactly the data a plain tree would hold after the same sequence. In particular an edit affects no value except its target, inserting an existing key replaces its value in place, removing reports whether there was something to remove, and getting a mutable value finds what reading it finds.",
 "Tests apply short fixed edit sequences; the state after an edit depends on the whole history, through the arena of values and their links.",
 [Y+"data.rs", Y+"value_mut.rs", Y+"mapping/mapping_mut.rs", Y+"sequence/sequence_mut.rs"],
 [("arena with parent links; removed subtrees are dropped", Y+"data.rs Data::drop / Data::replace")],
 ["Document::as_ref", "Document::value", "Value::as_any"],
 "the data read from the document is that of the model")
hist("C08", "An edited document is written so that it parses back to its data",
 "After any sequence of edits, the written document parses, and parses to the data the document held: the same mappings, sequences, keys, strings, numbers, booleans and nulls in the same places, where an emptied block collection reads as null. The two exceptions are a null written as nothing inside of an inline sequence, which cannot be represented, and a block scalar at the very end of a document without a final line break, which loses its last line break.",
 "Tests compare a few edited documents with expected text; whether the text still parses to the data depends on the combination of layout, position, kind of value and earlier edits.",
 [Y+"raw.rs", Y+"value_mut.rs", Y+"mapping/mapping_mut.rs", Y+"sequence/sequence_mut.rs", Y+"parsing.rs"],
 [("indentation and separators are derived from the surrounding collection", Y+"raw.rs"), ("strings are quoted when they would be read as something else", Y+"raw.rs new_string / is_special")],
 ["Document::write_to", "yaml::from_slice"],
 "what is written parses to the data of the model")
hist("C09", "Display and write_to produce the same bytes in every state",
 "For every document of UTF-8 text, however it was obtained (parsed, edited, cloned or restored), formatting it with `Display` and writing it with `write_to` produce the same bytes.",
 "The test suite only compares the two when built with a special cfg, on its own documents; they are two separate implementations of the same walk over every kind of value and every state.",
 [Y+"raw.rs", Y+"document.rs"],
 [("two parallel writers", Y+"raw.rs display / write_to")],
 ["Display for Document", "Document::write_to"],
 "both writers agree in every state")
hist("C10", "An id stands for the same value for as long as the value exists",
 "The id of a value stays the same, and keeps giving access to that value and no other, for reading and for editing, until the value or one of its ancestors is removed or replaced, whatever happens to the rest of the document; setting a value keeps its id. All values of a document have distinct ids, and a value, its mapping or sequence view, and its mutable view report the same id.",
 "Tests look up single ids after at most one edit; ids index an arena whose slots are freed and reused as entries come and go.",
 [Y+"data.rs", Y+"document.rs", Y+"value.rs"],
 [("ids are slots of an arena", Y+"data.rs Data::insert / Data::drop")],
 ["Value::id", "Document::value/value_mut"],
 "ids are followed through the history and resolved after every step")
hist("C11", "A restored snapshot is the same document and continues like the original",
 "Serializing a document at any point of its history to a self-describing format such as CBOR, and deserializing it, gives a document which writes the same bytes, holds the same data under the same ids, and behaves like the original under every further sequence of edits.",
 "The tests do not restore a document and go on editing it; whether some internal state is missing from the snapshot only shows in later edits.",
 [Y+"data.rs", Y+"document.rs", Y+"raw.rs"],
 [("derived serialization of the arena", Y+"data.rs"), ("strings are stored once and indexed by their hash", Y+"data.rs StringId")],
 ["serde::Serialize/Deserialize for Document"],
 "the history is continued on a restored document, which is compared in every state")

P.append(prop("C12", "Deserializing gives the data the accessors give",
 "Deserializing a document, or any value in it, into Rust types gives the data the document holds: self-describing types get the same tree with the same kinds, entries and order, typed fields the exact value, options `None` only for null, and enums each of their variants. What does not have the form of a type, such as a number out of its range, a missing field, or a sequence shorter than a tuple, is an error rather than something else. Serializing a value, mapping or sequence gives the same tree.",
 ["inputs"], "every document and every type the document can be deserialized into",
 "The tests deserialize two documents; the mapping is over all kinds of values, positions and target types.",
 [Y+"serde/de.rs", Y+"serde/ser.rs", Y+"serde/mod.rs", Y+"serde/error.rs"],
 [("deserializer over values", Y+"serde/de.rs"), ("serializer of values", Y+"serde/ser.rs")],
 ["yaml::from_slice + serde::Deserialize", "Serialize for Value"],
 technique="bounded-exhaustive enumeration of documents and target types, comparing what is deserialized with the tree read by the accessors",
 note="Every document of the reference renderer within its bounds, and every scalar form times every target type; compared with the accessors and with what the tree denotes as each type. Also the states of all short histories of edits."))

P.append(prop("C13", "Numbers are exact",
 "A number which is set, inserted or pushed with any of the integer or (finite) floating point types is written so that it is read back as exactly that value, both from the edited document and after parsing it again. A number text which is an integer is read as each integer type exactly if it is in the range of the type, and as nothing if it is not; one with a fraction or an exponent is not read as an integer. As a floating point type, a number is read as the nearest value of that type, and what is not a number is not read as one.",
 ["inputs"], "every value of every number type at the boundaries of all types, and every number text",
 "Tests use small numbers; errors show at the boundaries of the types, at signs, exponents and conversions between them.",
 [Y+"raw.rs", Y+"number.rs", Y+"value.rs", Y+"serde_hint.rs" if False else Y+"value_mut.rs"],
 [("numbers are formatted once and kept as text with a hint", Y+"raw.rs new_number"), ("numbers are parsed from their text when read", Y+"value.rs, "+Y+"number.rs")],
 ["ValueMut::set_*", "Value::as_*"],
 technique="bounded-exhaustive enumeration of boundary values of every number type and of number texts, times every way to write and to read them, compared with exact arithmetic",
 note="All combinations within the value sets (boundaries of each width, powers of two and ten, and all number texts up to a length); exact expectations, no tolerance. NaN and infinities cannot be written and are left out."))

P.append(prop("C14", "Strings and keys that are written are read back unchanged",
 "Any string that is set, inserted or pushed as a value, with the quoting that is chosen for it or with single or double quotes that are requested (or without quotes, if it is text which YAML allows without quotes there and which denotes a string), and any string used as a new key, is read back as the same string, of type string, from the edited document as well as after writing and parsing it, wherever it is in the document: in block or inline collections, or as the root. Single or double quotes that are requested are the ones that are written. The rest of the document reads as before.",
 ["inputs"], "every string, every position, every way to write it",
 "Tests write a few plain strings; which strings need quoting depends on every character, its position and the surrounding collection.",
 [Y+"raw.rs", Y+"value_mut.rs", Y+"mapping/mapping_mut.rs", Y+"sequence/sequence_mut.rs"],
 [("quoting is chosen from the content of the string", Y+"raw.rs new_string / is_special"), ("escapes when writing quoted strings", Y+"raw.rs String::display / write_to")],
 ["ValueMut::set_string/set_string_with", "MappingMut::insert*", "SequenceMut::push*"],
 technique="bounded-exhaustive enumeration of strings over the characters the grammar distinguishes, times positions and ways to write them, through an edit, write and parse round trip on the real code",
 note="All strings up to a length over an alphabet with every character that is special somewhere, plus all keyword-like strings, in every position."))

P.append(prop("C15", "All ways to look at a collection or value agree",
 "Iterating a mapping or sequence from the front, from the back, or in any mixture of both, by `nth`, and through consuming or borrowing iterators, yields exactly its entries in order, with exact lengths at every point; `len`, `is_empty`, `get` for every index or key, `get_into` and the mutable accessors agree with it. For every value, the kind reported by matching on it, by each `as_*` accessor and by the mutable accessors is the same one, and only that one.",
 ["inputs", "programs"], "every collection, and every sequence of calls to its iterator",
 "Iterators are tested front to back only; the guarantee is over all interleavings of calls from both ends.",
 [Y+"mapping/iter.rs", Y+"sequence/iter.rs", Y+"mapping/mapping.rs", Y+"sequence/sequence.rs", Y+"any.rs", Y+"any_mut.rs", Y+"value.rs", Y+"value_mut.rs"],
 [("iterators over slices of ids", Y+"mapping/iter.rs, "+Y+"sequence/iter.rs"), ("Any and AnyMut", Y+"any.rs, "+Y+"any_mut.rs")],
 ["Mapping::iter", "Sequence::iter", "Value::as_*"],
 level="model_checking",
 technique="explicit-state exploration of every sequence of iterator calls on the real iterators against a double-ended reference queue, and exhaustive comparison of the accessors of every value",
 note="All sequences of calls up to a depth beyond exhaustion for collections of every size up to a bound; the state of the iterator is determined by how much was taken from each end, and all such states are reached."))

P.append(prop("C16", "A failing or slow writer gets a prefix of the document and its error is reported",
 "`write_to` delivers exactly the bytes of the document to a writer that accepts them in pieces of any size and is interrupted at any point. If the writer fails at any point, `write_to` returns that error, does not panic, and has delivered exactly the bytes before that point; the document is unchanged and can be written again in full. Likewise, an error of the formatter is returned by `Display`.",
 ["fault_sequences"], "every document, and every sequence of short writes, interruptions and a failure at every position",
 "Tests write to a vector, which never fails; the guarantee is over all positions a fault may occur at.",
 [Y+"document.rs", Y+"raw.rs"],
 [("errors are passed on from each write", Y+"raw.rs write_to"), ("write_all", Y+"raw.rs")],
 ["Document::write_to", "Display for Document"],
 level="fault_enumeration",
 technique="exhaustive fault injection: every write call and byte position of each document times every kind of fault, on the real writers",
 note="Every fault position and kind for each document in the explored set, and pairs of faults; the documents cover every kind of value and of edit."))

hist("C17", "A clone and its original do not affect each other",
 "Cloning a document at any point of its history gives an equal document, with the same bytes, data and ids; edits of either one after that never affect the other, and each behaves like a document with its own history.",
 "The tests clone documents but do not go on to edit both of them; sharing only shows after edits on either side.",
 [Y+"document.rs", Y+"data.rs"],
 [("derived deep clone of the arena", Y+"document.rs, "+Y+"data.rs")],
 ["Clone for Document"],
 "edits are interleaved on both in every way, each is compared with its own model")

P.append(prop("C18", "Features and build configuration do not change behaviour",
 "Whatever combination of the crate's optional features it is built with, and with or without the write-equality self check, parsing, reading, editing and writing give the same results for the same input and edits, and the self check does not fail.",
 ["configurations", "histories"], "every combination of features, every document and history",
 "The test suite is run with a single combination of features.",
 ["Cargo.toml", "src/lib.rs", Y+"mod.rs", Y+"document.rs", Y+"raw.rs"],
 [("conditional compilation", "src/lib.rs, "+Y+"mod.rs"), ("write-equality self check", Y+"document.rs Display for Document")],
 ["transcripts of a fixed, exhaustively enumerated set of histories"],
 technique="exhaustive enumeration of build configurations, each running the same exhaustively enumerated set of documents and edit histories, with transcripts compared",
 note="Every combination of features and of the self check; transcripts contain what is written and read after every step."))

P.append(prop("C19", "A value displays as the part of the document it was read from",
 "In a parsed document, the text of any value, mapping or sequence, as shown by `Display`, is exactly the part of the source it was read from, without the whitespace in front of it, where a block collection includes a comment on its last line. The raw text of a number or of a string is its source text, including quotes.",
 ["inputs"], "every document and every value in it",
 "Tests display few values; positions depend on nesting and layout.",
 [Y+"value.rs", Y+"raw.rs", Y+"mapping/mapping.rs", Y+"sequence/sequence.rs", Y+"number.rs", Y+"string.rs"],
 [("values keep their original text", Y+"raw.rs"), ("Display for Value, Mapping, Sequence, Number::as_raw, String::as_raw", Y+"value.rs, "+Y+"mapping/mapping.rs, "+Y+"sequence/sequence.rs")],
 ["Display for Value/Mapping/Sequence", "Number::as_raw", "String::as_raw"],
 technique="bounded-exhaustive enumeration of documents from a reference renderer with known positions of every value, compared with the text of every value",
 note="Every document of the reference renderer within its bounds, and every value in it, on the real code."))

P.append(prop("C20", "Block scalars are read and written as YAML defines them",
 "A literal block scalar is read as its lines without the common indentation, with the line breaks its chomping indicator calls for (none, one, or all), whatever its indentation, explicit indentation indicator, blank lines, comment after its header, line endings and position; a folded one whose content has no blank lines in between and no lines that are indented further or end in whitespace is read as these joined by spaces. Lines that are set, inserted or pushed as a literal block (where the last is not empty, unless chomped with `Keep`), or as a folded one (where none is blank, or starts or ends in whitespace), are read back from the edited document as those lines joined by line breaks or spaces, and ending in a line break unless chomped with `Strip`. After writing and parsing they are read back as the same, but for the last line break of a block at the very end of a document without a final one, with everything around it as before.",
 ["inputs"], "every block scalar and every position, every list of lines that can be written as a block",
 "Tests read and write a handful of blocks; where a block ends and what it contains depends on each line, its indentation and what follows.",
 [Y+"parsing.rs", Y+"raw.rs", Y+"value_mut.rs"],
 [("block scanner", Y+"parsing.rs Parser::block"), ("blocks are written with the indentation of their collection", Y+"raw.rs new_block")],
 ["Value::as_str", "ValueMut::set_block", "MappingMut::insert_block", "SequenceMut::push_block"],
 technique="bounded-exhaustive enumeration of block scalars line by line, in every position, compared with an independent reference reader and libyaml, and of blocks to write through a round trip",
 note="All blocks up to a number of lines over line shapes, times headers and positions. Blank lines of folded blocks are pinned by a test of the repository to a different reading than YAML's, and are left out, as is text on the header line."))

DONE = set(os.environ.get("DONE", "").split()) or None

def fixes():
    p = os.path.join(HERE, "tools", "fixes.txt")
    if not os.path.exists(p):
        return []
    log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout
    by = {}
    for line in log.splitlines():
        h, s = line.split(" ", 1)
        by[s.strip()] = h
    out = []
    for line in open(p):
        line = line.strip()
        if not line:
            continue
        pid, subject, what = [x.strip() for x in line.split("|", 2)]
        out.append(f"fixed: property={pid} {by['fix: ' + subject]} {what}")
    return out

def main():
    ready = set(open(os.path.join(HERE, "tools", "ready.txt")).read().split())
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], state=p["state"], mechanism=[dict(name=n, where=w) for n, w in p["mechanism"]], observe_at=p["observe"], hook_needed=None))) + "\n")
            assert len(p["title"]) <= 80, p["title"]
            n = p["statement"].count(". ") + 1
            assert n <= 3, (p["id"], n)
    m = dict(version=1, setup_cmd="bash setup.sh", checks=[], not_applicable=[])
    for p in P:
        if p["id"] in ready:
            m["checks"].append(dict(property=p["id"], quick_cmd=f"./check.sh {p['id']} quick", thorough_cmd=f"./check.sh {p['id']} thorough",
                technique=p["technique"], level=p["level"], level_note=p["note"]))
        else:
            m["not_applicable"].append(dict(property=p["id"], reason=p["na"] or "the check is not finished yet"))
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    k = os.path.join(HERE, "known-findings.json")
    d = json.load(open(k))
    d["fixed"] = fixes()
    with open(k, "w") as f:
        json.dump(d, f, indent=2)
        f.write("\n")

main()

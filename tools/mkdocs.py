#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and known_findings.json from the texts below."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import checks

def A(files, *mech): return dict(files=files.split(), mechanism=[dict(name=m.split(" @ ")[0], where=m.split(" @ ")[1]) for m in mech])
LD, SV, CP, FR = "src/load.c", "src/save.c", "src/copy.c", "src/free.c"
P = []
def p(id, title, statement, over, text, why, anchors): P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why, anchors=anchors))

p("P01", "Loading any document is memory safe and terminates",
  "For any YAML document and any valid schema, loading never reads or writes memory outside live allocations and the caller's buffers, never uses uninitialised or freed memory, never performs undefined arithmetic, and always returns. A load from memory parses exactly the caller's buffer, whatever its length. Everything it writes lies inside the memory the schema describes for the value being loaded. This also holds when an allocation or the YAML parser fails part way, with aliases, with ignored and unknown keys, and for deeply nested documents.",
  "inputs fault_sequences configurations", "every event stream the YAML parser can deliver, every scalar text, every schema shape, any failing allocation",
  "The tests load a few hundred fixed documents; an out of bounds access needs a particular nesting, count, text length or failing allocation, and shows only under a sanitizer.",
  A("src/load.c src/mem.c src/data.h src/utf8.c", "explicit state stack grown before every push @ src/load.c:cyaml__stack_ensure", "document position tracked by a state machine that must return to the stream end @ src/load.c:cyaml__load", "writes of 1 to 8 bytes with a checked size @ src/data.h:cyaml_data_write"))
p("P02", "A failed load has no effect: nothing is leaked and no output is written",
  "When loading returns anything but success, every allocation made during the load has been released exactly once through the client's allocator, the parser and all its events have been released, and the caller's data pointer and sequence count are left exactly as they were. An allocation failure is reported as out of memory, and parser failures with the parser's error codes.",
  "inputs fault_sequences", "every rejected document, and every point at which an allocation, the parser's initialisation or the parser can fail",
  "Tests fail the n-th allocation for a handful of documents; a leak or double free needs the failure at one place in one document shape.",
  A("src/load.c src/free.c src/mem.c", "partial data freed on error @ src/load.c:cyaml__load", "recorded events released @ src/load.c:cyaml__free_recording", "data_tgt written only on success @ src/load.c:cyaml__load"))
p("P03", "Freeing releases each allocation of a value exactly once",
  "cyaml_free applied to data that was loaded, copied or built by the client for a schema releases every allocation reachable through that schema exactly once through the client's allocator, touches nothing else, and returns success. This holds for optional fields that are NULL, NULL entries, empty sequences, fixed sequences, embedded values and linked structures. For a schema whose top level is a pointer, a NULL data pointer is accepted and does nothing.",
  "inputs histories", "every data value of every schema shape, whichever way it came about",
  "Tests free the few values they load; a missed or doubled free needs a particular combination of embedding, entry type and NULLs.",
  A("src/free.c src/mem.c", "recursive walk over schema and data @ src/free.c:cyaml__free_value"))
p("P04", "Mappings: fields go to their keys, required fields are enforced",
  "Each value in a mapping is stored in the field its key names and nowhere else, fields may come in any order, and fields that do not occur keep the default or zero. A mapping that lacks a required field is rejected, also when it is empty or ignored fields are involved, and a key with no field is rejected unless the configuration asks for unknown keys to be ignored, in which case its whole value is skipped. Non-scalar keys, and values of the wrong kind, are rejected.",
  "inputs", "every mapping event sequence over any key texts, any field order and repetition, any nesting",
  "Tests use a few mappings with keys in one order; mixing up fields needs certain orders, repetitions or more fields than bits in a word.",
  A("src/load.c", "field lookup by key @ src/load.c:cyaml__get_mapping_field_idx", "bitfield of seen fields @ src/load.c:cyaml__mapping_bitfieid_set", "check for required fields @ src/load.c:cyaml__mapping_bitfieid_validate"))
p("P05", "Sequences: count limits are enforced and counts are reported exactly",
  "A loaded sequence holds exactly the entries of the document in order, and its entry count is stored in the count member (of any size from one to eight bytes) or returned for a top-level sequence; no byte next to the count member changes. A sequence with fewer entries than the minimum or more than the maximum, more entries than its count member can represent, or a fixed sequence of any other length, is rejected with the documented error. An empty sequence that is allowed loads as NULL with count zero, and saving writes exactly the counted entries.",
  "inputs", "every number of entries, every minimum and maximum, every size of the count member, embedded and allocated sequences",
  "Tests use small sequences with four byte counts and one limit each; truncation and off-by-one errors need the exact limit or a count member of another size.",
  A("src/load.c src/save.c src/data.h", "limit checks and growth @ src/load.c:cyaml__seq_entry"))
p("P06", "Integers load exactly or are rejected",
  "A signed or unsigned integer text is accepted exactly if the whole text is one C integer constant in decimal, hexadecimal or octal (as strtoll and strtoull with base 0 read it; an unsigned value takes no negative number), and its value lies in the range of the value's data size and between the schema's minimum and maximum where those are set. What is accepted is stored with exactly that value in exactly data-size bytes, for data sizes one to eight; everything else is rejected as an invalid value. Saving writes the decimal text of exactly the stored value.",
  "inputs", "every text, every data size, every minimum and maximum, embedded and allocated",
  "Tests sample a few numbers per size; boundary errors sit at single values such as the minimum of a size, or at one size.",
  A("src/load.c src/save.c src/util.h", "text to number with full-consumption check @ src/load.c:cyaml__read_int", "range checks by data size and schema @ src/load.c:cyaml__store_int"))
p("P07", "Enums, flags and bitfields map names to values exactly",
  "An enum loads as the value of the name it spells, or, unless strict, as a number that fits; flags load as the bitwise or of their entries, and a bitfield as the or of each named field's value shifted to its position. A name that is unknown, a value that does not fit the data size or its bit field, and bit definitions outside the data size are rejected with the documented error. Saving writes the name for the value, or in non-strict schemas the number, such that flags name every bit that is set, and bitfield members every non-zero field.",
  "inputs", "every text, any values and bit positions in the schema, every data size, strict or not",
  "Tests use small tables with small values; sign extension, 64-bit flags, and wide or overlapping bit fields need particular values.",
  A("src/load.c src/save.c", "enum @ src/load.c:cyaml__read_enum", "flags @ src/load.c:cyaml__read_flags_value", "bitfield @ src/load.c:cyaml__read_bitfield_value", "saving flags @ src/save.c:cyaml__write_flags_value"))
p("P08", "Validation callbacks see every loaded value and can veto it",
  "A value whose schema has a validation callback is accepted only if the callback, called exactly once for each occurrence after the built-in checks passed, returns true; otherwise loading fails with the invalid-value error. The callback receives the configuration's validation context, the value's schema, and the complete loaded value: the number, the whole string, or the mapping or sequence data with all its fields and entries stored and, for sequences, the number of entries.",
  "inputs", "every document, every pattern of callback verdicts",
  "Tests have one callback per type that always accepts or always rejects one value.",
  A("src/load.c", "callbacks @ src/load.c:cyaml__map_end", "callbacks @ src/load.c:cyaml__seq_end"))
p("P09", "Case sensitivity of names follows schema flags, then configuration",
  "Mapping keys, enum values, flag names and bit field names match case insensitively if the schema value has the case insensitive flag, else case sensitively if it has the case sensitive flag, else as the configuration says, with case sensitive as the default. The rule of each value applies to its own names only, never to those of its parent or children, and the first matching name in schema order wins.",
  "inputs configurations", "every combination of configuration and schema flags, names differing only in case",
  "Tests cover a few flag combinations with one spelling each.",
  A("src/util.h src/load.c", "flag precedence @ src/util.h:cyaml__is_case_sensitive", "comparison @ src/util.h:cyaml__strcmp"))
p("P10", "Case insensitive comparison is safe and a proper equivalence on UTF-8",
  "Comparing two NUL-terminated byte strings never reads beyond either terminator, whatever the bytes, including truncated and invalid UTF-8. Strings compare equal exactly if they consist of the same characters up to upper and lower case for the ranges of letters the library documents (ASCII, Latin-1, Latin Extended-A and -B), and the relation is reflexive and symmetric.",
  "inputs", "every pair of byte strings",
  "Tests compare a few dozen strings, nearly all valid UTF-8.",
  A("src/utf8.c src/utf8.h", "decoding @ src/utf8.c:cyaml_utf8_get_codepoint", "folding @ src/utf8.c:cyaml_utf8_to_lower"))
p("P11", "An alias loads exactly as a copy of the node it refers to",
  "A document with aliases loads to the same result, data or error, as the document in which each alias is replaced by the node most recently given that anchor name, for scalars, sequences and mappings, also when anchors are nested, repeated, or lie inside ignored values. An alias to an unknown anchor is an invalid-alias error, and with aliases disabled by the configuration any alias is rejected.",
  "inputs", "every placement of anchors and aliases, any nesting and redefinition of names (except inside the node the name is given to)",
  "Tests use a handful of documents with one or two anchors.",
  A("src/load.c", "recording of anchored events @ src/load.c:cyaml__handle_record", "replay @ src/load.c:cyaml__handle_replay", "anchors @ src/load.c:cyaml__new_anchor"))
p("P12", "Missing optional fields get exactly their default",
  "An optional field that does not occur in its mapping has exactly the schema's default value after loading, or zero, empty or NULL if there is none; a default string, mapping or sequence is a deep copy that the loaded data owns. A field that occurs never gets its default, and defaults that do not fit the value's size or the string's length limits are an error.",
  "inputs configurations", "every subset of missing fields, every default value and data size",
  "Tests cover defaults for each type once, with all fields missing.",
  A("src/load.c", "scalar defaults @ src/load.c:cyaml__field_scalar_apply_default", "other defaults via copy @ src/load.c:cyaml__field_apply_default"))
p("P13", "NULL values are exactly those the schema allows",
  "A value whose schema allows NULL loads as a NULL pointer exactly if its text is empty or, where the schema allows null words, one of ~, null, Null and NULL; any other value, and any value whose schema does not allow NULL, loads as an ordinary value. NULL values are saved as a null scalar in sequences and mappings where the field is required or omitted where it is optional, copied as NULL, and skipped by freeing; a NULL pointer where the schema does not allow one is an error when saving or copying.",
  "inputs", "every scalar text at every place a nullable value can be, every combination of NULL pointers in client data",
  "Tests cover a few null spellings for a few types.",
  A("src/load.c src/save.c src/copy.c src/util.h", "null recognition @ src/load.c:cyaml__string_is_null_ptr", "null allowed @ src/util.h:cyaml__null_allowed"))
p("P14", "Ignored values are skipped whole, and only the first document is loaded",
  "The value of an ignored field, or of an unknown key when the configuration ignores those, is skipped completely whatever its structure, without any effect on the rest of the result, and is neither saved nor copied. Only the first document of a stream is loaded; an empty stream loads as no data.",
  "inputs", "every ignored value of any structure at any position; every stream",
  "Tests ignore a few small values.",
  A("src/load.c", "skipping @ src/load.c:cyaml__consume_ignored_value", "ignored values @ src/load.c:cyaml__read_value"))
p("P15", "Strings load completely, within their limits and inside their buffer",
  "A string loads with exactly the bytes of its text followed by a terminator, accepted exactly if its length is between the schema's minimum and maximum and rejected otherwise with the documented error. An embedded string never writes beyond its array, and an allocated string has its own allocation.",
  "inputs", "every text and length, every minimum and maximum, embedded and allocated",
  "Tests sample lengths well inside the limits.",
  A("src/load.c", "length checks and store @ src/load.c:cyaml__store_string"))
p("P16", "Saving emits exactly the data, in schema order, without modifying it",
  "A successful save emits one document that contains exactly the client's data: each mapping field in schema order with its key, each sequence entry in order, optional pointer fields that are NULL omitted, with the documented value text, scalar and collection style and document markers. The client's data is never modified, and data that does not fit the schema is rejected with the documented error.",
  "inputs configurations", "every client data value of every schema shape, every style flag",
  "Tests save a few dozen values and compare text.",
  A("src/save.c", "state machine over schema and data @ src/save.c:cyaml__save", "styles @ src/save.c:cyaml__emit_scalar"))
p("P17", "Saving and loading again gives equal data",
  "For data that fits its schema, loading what was saved, with the same schema and configuration, succeeds and gives data equal to the original in every number, string, pointer-or-NULL and count (a sequence without entries loads as NULL). This holds for every schema type and data size and every flag combination whose text is unambiguous.",
  "inputs", "every client data value (numbers over their full range) of every schema shape",
  "Tests round trip fixed samples.",
  A("src/save.c src/load.c", "writers and readers of the same types @ src/save.c:cyaml__write_value"))
p("P18", "A failed save reports it and leaks nothing; a buffer is exactly the output",
  "When saving fails, for whatever reason and at whatever point, an error is returned, every allocation, event, emitter and file has been released, and the caller's buffer pointer and length are untouched. When saving to memory succeeds, the buffer is exactly the concatenation of all emitted bytes, its length is the number of those bytes, and it is the only allocation left, owned by the client.",
  "inputs fault_sequences", "every point at which an allocation, event or emission can fail, every division of the output into pieces",
  "Tests fail the n-th allocation for a few values; emitter failures are never injected.",
  A("src/save.c", "growing buffer @ src/save.c:cyaml__buffer_handler", "error path @ src/save.c:cyaml_save_data"))
p("P19", "A copy is deep, equal, and independent of its source",
  "Copying data that fits its schema succeeds and gives data equal to the source in every number, string, NULL and count (a sequence without entries is copied as NULL), in newly allocated memory that shares nothing with the source. The source is not modified, and freeing either leaves the other intact and completely freeable. For a schema whose top level is not a pointer the copy is made in the caller's buffer and writes only inside it.",
  "inputs", "every client data value of every schema shape",
  "Tests copy the values of the load tests.",
  A("src/copy.c", "state machine over schema and data @ src/copy.c:cyaml_copy"))
p("P20", "A failed copy reports it, frees everything and leaves the caller's pointer",
  "When copying fails, because an allocation fails at any point or because the source does not fit its schema, the documented error is returned, every allocation of the partial copy has been released exactly once, and the caller's pointer and the source are unchanged.",
  "inputs fault_sequences", "every point at which an allocation can fail, every misplaced NULL",
  "Tests fail allocations for a few copies only.",
  A("src/copy.c src/free.c", "partial copy freed @ src/copy.c:cyaml_copy"))
p("P21", "Bad parameters are refused before anything happens",
  "Each of load, save, copy and free given a missing configuration, allocator, schema or data pointer, a sequence count that does not suit the schema, a top-level value that is not a pointer, or a copy target that is already set, returns the documented error for it. It then has allocated nothing, called no callback, written nothing through the caller's pointers, and released whatever it opened.",
  "inputs configurations", "every combination of good and bad parameters",
  "Tests try each bad parameter on its own with one schema.",
  A("src/load.c src/save.c src/copy.c src/free.c", "parameter checks @ src/load.c:cyaml__validate_load_params", "parameter checks @ src/save.c:cyaml__validate_save_params"))
p("P22", "Loading and saving by path open one file, use it, and close it exactly once",
  "Loading from a path opens exactly that path for reading, and saving to a path opens exactly that path for writing, and every file opened is closed exactly once whatever fails. A file that cannot be opened is reported as such without any further effect; a save whose file cannot be closed properly is not reported as success. Otherwise the result is the same as with data in memory.",
  "inputs fault_sequences", "every failure of opening, parsing, emitting, allocating or closing",
  "Tests use readable and missing files; failures in between or at closing are not injected.",
  A("src/load.c src/save.c", "file handling @ src/load.c:cyaml_load_file", "file handling @ src/save.c:cyaml_save_file"))
p("P23", "Booleans and floating point numbers load exactly as documented",
  "A boolean is false exactly if its text is one of false, no, off, disable and 0 in any case, and true otherwise. A floating point text is accepted exactly if it is wholly a number; the value is stored in single or double precision as the data size says, numbers out of range become infinity or zero unless the schema is strict, in which case they are rejected, and any other data size is rejected.",
  "inputs", "every boolean text; every value, range result and extent the C library's number reader can return; every data size",
  "Tests sample a few words and numbers.",
  A("src/load.c", "bool @ src/load.c:cyaml__read_bool", "float @ src/load.c:cyaml__read_float"))
p("P24", "The library keeps no state between or across calls",
  "The result and effects of a load, save, copy or free depend only on its arguments: calls made before it, or complete nested calls made from inside the client's allocator, log or validation callbacks, change nothing about it.",
  "histories schedules", "every nested or preceding call, at every callback point",
  "Tests run one call at a time, and a stale static buffer shows only if two uses overlap.",
  A("src/load.c src/save.c src/copy.c src/free.c src/util.c", "all state in a context on the caller's stack @ src/load.c:cyaml__load"))
p("P25", "Logging never changes results and its messages are well formed",
  "Setting any log level and any log function, or none, never changes the result of a call, the data or the allocations. The log function is called only for messages at or above the configured level, with the configured context, and each format string matches its arguments, so that formatting it is always safe, also after any failure.",
  "inputs configurations fault_sequences", "every log level, every error path",
  "Tests log to a standard function and look at return values only; most messages are never formatted at debug level on error paths.",
  A("src/util.h src/util.c src/load.c src/save.c src/copy.c", "level filter @ src/util.h:cyaml__log", "standard log function @ src/util.c:cyaml_log"))
p("P26", "Standard allocator, error texts and log function behave as documented",
  "The library's allocation function allocates, resizes keeping the content, and for size zero frees and returns NULL. Every error code has its own non-empty text and every other value gives the text for an invalid code. The standard log function writes one prefixed line per message to standard error.",
  "inputs", "every pointer and size, every integer as error code",
  "Tests look up a few codes.",
  A("src/mem.c src/util.c", "allocator @ src/mem.c:cyaml_mem", "texts @ src/util.c:cyaml_strerror"))

p("P27", "A schema the library cannot honour is reported with its own error",
  "Loading or saving a value whose schema has a type that does not exist, a number with a data size of 0 or more than 8 bytes (or a float that is neither 4 nor 8), a bit definition without bits or beyond its value's data size (loading looks at definitions up to the one named), a fixed sequence with unequal minimum and maximum, or a counted sequence directly inside a sequence ends with the error documented for that mistake, whatever the mistaken value and wherever in the document it is; copying does so for the type and sequence mistakes. Nothing is read or written outside the client's structures, nothing leaks, and the caller's result variables stay as they were. Schemas without such a mistake are accepted.",
  "inputs configurations", "every wrong type value, data size, bit position and sequence limit; a field, an entry or the document itself",
  "Tests try one wrong value of each kind in one place.",
  A("src/load.c src/save.c src/copy.c src/data.h", "type @ src/load.c:cyaml__validate_event_type_for_schema", "bits @ src/load.c:cyaml__get_bitval_index", "sequences @ src/load.c:cyaml__stack_push", "saving @ src/save.c:cyaml__write_value", "copying @ src/copy.c:cyaml__stack_push"))

FIXED = [l.split(" | ") for l in """\
P16 | e3cfd25 | saving a mapping whose allowed empty sequence is a NULL pointer failed
P16 | b5272b3 | saving a negative enum value in less than 8 bytes wrote a large number instead of its name
P03 | 3eae25b | freeing a sequence of embedded fixed-length sequences of allocated values freed the wrong pointers and leaked the others
P03 | 8f8b9fd | freeing a mapping with a sequence field of impossible count size leaked all later fields
P19 | 41dec8f | copying a top-level sequence of pointers or embedded fixed sequences wrote beyond the allocation
P13 | af9402a | copying valid data with NULL pointers (nullable fields, nullable entries, empty sequences) failed
P10 | 3c720b0 | comparing a string that ends in a truncated character skipped the terminator and read beyond the string
P06 | caa7b37 | an unsigned integer accepted "-1" and stored the wrapped value
P07 | 1bb4fb5 | flags given as numbers above INT64_MAX were rejected or misread; data sizes 0 and above 8 were accepted
P07 | 1c74fa2 | bit definitions of 0 or 64 bits shifted out of range (undefined behaviour)
P05 | e93aecf | a sequence with more entries than its count member can hold loaded with a truncated count
P08 | 961a27c | an allocated sequence's validation callback got the pointer to the field, not the entries
P23 | 763bd8f | strict single precision floats accepted numbers that underflow
P16 | 4a82549 | saving flags emitted a multi-bit flag when only some of its bits were set
P22 | 9855b0b | saving to a file reported success although closing the file failed to write the data
P24 | ed7fa6f | saving kept number texts in static buffers, so that nested or concurrent saves corrupted each other
P25 | 2229cf6 | log backtraces of failing saves and copies named the wrong field and entry, or read beyond the schema
P25 | ed28545 | log backtraces of failing loads read a field with index -1
P25 | 7ed3529 | log format strings did not match their arguments
P25 | 8a0c642 | NULL was passed for %s when libyaml reports no reason
P12 | 484a1b9 | an optional sequence field whose default is an empty array made loading fail when it did not occur
P19 | a11d2de | copying data with an allocated sequence without entries failed with an out of memory error
P17 | 9c978af | single precision values were saved with six digits and came back changed
""".splitlines()]

NOT_APPLICABLE = {}
# how each property is decided, beyond the general method
HOW = {
 "P01": "bounds, lifetime, initialisation, arithmetic of every access on every path; step limit for termination",
 "P02": "ledger of allocations, events and parser after every failing path; sentinels in the caller's variables; error code against the reference",
 "P03": "ledger empty, no double or foreign free, after freeing loaded, copied and hand-built data",
 "P04": "loaded structure compared byte by byte with the reference, expected error otherwise",
 "P05": "as P04 plus symbolic limits and count sizes with guard bytes",
 "P06": "reference number reader (independent, over 128 bits) and range rules against symbolic text, limits and sizes",
 "P07": "reference for names, numbers, shifts with symbolic values and positions; emitted names when saving",
 "P08": "log of callback calls compared with the calls the reference predicts; verdicts are symbolic",
 "P09": "reference matcher with the documented precedence, under all flag combinations",
 "P10": "decoder and fold table written from the documented ranges; argument swap; exact-size buffers",
 "P11": "reference loads the alias-expanded event list",
 "P12": "reference defaults with symbolic values and sizes",
 "P13": "reference null rule; saving and copying with NULL anywhere",
 "P14": "reference skips one node; streams of two documents",
 "P15": "reference length rule with symbolic limits, arrays with guard bytes",
 "P16": "emitted event list compared with the reference's; shadow copy of the client's data",
 "P17": "emitted events fed to the loader, data compared",
 "P18": "faults at every emitter, event and allocator call; buffer compared with the pushed bytes",
 "P19": "deep comparison, disjointness, ledger after freeing either",
 "P21": "every combination of parameters; allowed error set, ledger, sentinels, event counts",
 "P22": "stdio model: path, mode, open and close counts, a failure at any open, flush or close",
 "P23": "reference for words; strtod modelled as any value, errno and extent",
 "P24": "one complete call nested inside another at every allocation, log and callback point; both results compared with the undisturbed ones",
 "P25": "level, context and format/argument check of every message on every path, at every level; results against the same reference as without logging",
 "P27": "symbolic type number, data size, bit positions, limits in a field, entry or top-level value; the documented error or the right value is demanded, with ledger and sentinels",
 "P26": "content of resized blocks; pairwise comparison of all texts; captured standard error",
 "P20": "allocation failing at any call, misplaced NULLs; ledger and sentinels",
}
CAUGHT = {}
try: CAUGHT = json.load(open(os.path.join(HERE, "tools", "caught.json")))
except OSError: pass
LEVEL = "model_checking"
NOTE = "Every path of the real code within the bounds is explored symbolically and each assertion decided by Z3 or, when it folds to a constant, by the path itself; %s. Trusted: the engine (cross-checked on every run by replaying sampled paths and every counterexample natively), the libyaml/libc models, the reference semantics. Outside: %s."
def main():
    ids = [x["id"] for x in P if x["id"] in checks.PROPS or x["id"] in NOT_APPLICABLE]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            if x["id"] in ids: f.write(json.dumps(x) + "\n")
    m = dict(version=1, setup_cmd="python3 /verif/run.py --setup", checks=[], not_applicable=[dict(property=k, reason=v) for k, v in NOT_APPLICABLE.items()],
             notes="All checks run one symbolic executor (engine/) over LLVM bitcode compiled from /repo on every run; see DESIGN.md.")
    for x in P:
        if x["id"] not in checks.PROPS: continue
        s = checks.PROPS[x["id"]]
        m["checks"].append(dict(property=x["id"], quick_cmd=f"python3 /verif/run.py {x['id']} quick", thorough_cmd=f"python3 /verif/run.py {x['id']} thorough",
            technique="bounded exhaustive symbolic execution of the compiled code (LLVM bitcode) with Z3 deciding path feasibility and assertions; counterexamples replayed natively",
            level=LEVEL, level_note=NOTE % ("bounds: " + s["bounds"], s["outside"])))
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1); open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
    kf = json.load(open(os.path.join(HERE, "known_findings.json")))
    kf["fixed"] = [f"fixed: property={a} {b} {c}" for a, b, c in FIXED]
    json.dump(kf, open(os.path.join(HERE, "known_findings.json"), "w"), indent=1); open(os.path.join(HERE, "known_findings.json"), "a").write("\n")
    # DESIGN.md: the table of properties and of planted changes
    rows = ["| property | harnesses (quick jobs) | decides | bounds |", "|---|---|---|---|"]
    for x in P:
        if x["id"] not in checks.PROPS: continue
        s = checks.PROPS[x["id"]]; h = {}
        for j in s["quick"]: h[j["harness"]] = h.get(j["harness"], 0) + 1
        rows.append(f"| {x['id']} {x['title']} | {', '.join(f'{k} ×{v}' for k, v in sorted(h.items()))} | {HOW.get(x['id'], '')} | {s['bounds']}; outside: {s['outside']} |")
    sd = ["| change | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
    d = os.path.join(HERE, "seeded")
    for n in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        m = json.load(open(os.path.join(d, n, "meta.json")))
        sd.append(f"| {n} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {CAUGHT.get(n, '')} |")
    t = open(os.path.join(HERE, "tools", "DESIGN.in.md")).read().replace("@@TABLE@@", "\n".join(rows)).replace("@@SEEDED@@", "\n".join(sd))
    open(os.path.join(HERE, "DESIGN.md"), "w").write(t)
if __name__ == "__main__": main()

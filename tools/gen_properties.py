#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": text},
        "why_tests_cant": why,
        "anchors": {"files": list(files),
                    "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                    "mechanism": [{"name": a, "where": b} for a, b in mechanism],
                    "observe_at": list(observe), "hook_needed": hook}})

DOC = ("documents are well-formed JSON objects or arrays of any size, nesting, whitespace and escape content, keys unique per "
       "object; path elements, keys and string texts are in document form (escapes not decoded)")

p("C01", "A path that exists returns exactly the text of its value",
  "For every well-formed JSON object or array and every path of keys and array indexes that leads to a value in it, a lookup "
  "(plain function or JSON-object method, as bytes or as string) succeeds and returns exactly that value's own text: the text between "
  "the quotes for a string, the whole text including braces for a container, the token for anything else. "
  "With an empty path the document itself is returned. Keys and strings are matched and returned as written in the document, escape sequences included.",
  ["inputs"], DOC,
  "The tests look up paths generated by node from nine fixed files (no adversarial whitespace, few escapes, no key names repeated in "
  "sibling branches, no braces inside strings below the searched level); the guarantee is over every document and path.",
  ["inter_core.go", "inter_get.go", "jin_object_get.go", "jin_object.go"],
  [("single-pass scanner: key search, index search, value end search", "inter_core.go core"), ("Get/GetString slice the span", "inter_get.go Get, GetString"), ("document-object delegation", "jin_object_get.go")],
  [("offset/level/inQuote", "scanner position, nesting level and in-string flag that must track the document exactly", "inter_core.go core")],
  ["return value of Get/GetString and of the JO methods"])

p("C02", "A path that does not exist is reported as an error, never answered",
  "For every well-formed JSON object or array and every path that leads to no value (a missing key, an index outside the array or negative, a "
  "key where an array needs an index, a step below a string, number, boolean or null, or anything inside an empty container), every "
  "lookup returns an error and no value, whatever else the document contains elsewhere. "
  "A missing key of an object is reported as key-not-found, an index past the end of a non-empty array or a negative one as index-out-of-range, a non-numeric step "
  "into an array as index-expected, and the error-code test recognises that code and no other.",
  ["inputs"], DOC + "; the missing path is any non-empty path that does not resolve, including names that exist in a parent, child or sibling container",
  "The tests only look up paths that exist; no test asks for a missing key or index, let alone one whose name occurs in a neighbouring container.",
  ["inter_core.go", "inter_get.go", "errors.go", "parse_utils.go", "parse_get.go", "jin_object_get.go"],
  [("leave-container and out-of-range exits of the scanner", "inter_core.go core"), ("tree walk", "parse_utils.go node.walk"), ("error codes", "errors.go")],
  [("level", "must stop the search when the addressed container closes", "inter_core.go core")],
  ["error of Get, GetString, GetInt, GetFloat, GetBool, array getters, GetAll, type queries, iteration, Parser.Get", "ErrEqual"])

p("C03", "Typed reads convert exactly the addressed value or report failure",
  "For every well-formed JSON object or array and every path to a value, the typed readers (integer, float, boolean, and arrays of strings, integers, floats and booleans; plain, "
  "document-object and parsed forms) return exactly the value that the addressed text denotes, element by element and in order for arrays (an empty array gives an empty "
  "result), and a failure error with no other effect when the text, or any element, does not denote that type. Splitting an array given as a string obeys the same rule.",
  ["inputs"], DOC + "; integers over the int range, floats over all JSON number texts, arrays over all element mixes and whitespace",
  "No test calls GetInt, GetFloat, GetBool or any typed array reader; ParseArray is only used by the tests as a helper on compact arrays.",
  ["inter_get.go", "parse_get.go", "others.go", "utils.go", "jin_object_get.go"],
  [("text conversion", "inter_get.go GetInt..GetBool"), ("element splitter", "inter_get.go GetIntArray/GetFloatArray/GetBoolArray, others.go ParseArray"), ("element trimming", "utils.go cleanValueString"), ("the same for the parsed form", "parse_get.go")],
  [], ["return values and errors of the typed getters"])

p("C04", "Type, emptiness and length queries describe the real value",
  "For every well-formed JSON object or array and every value in it (the root included), the type query names the JSON type of that value, the is-object, is-array and is-value "
  "tests are true exactly for objects, arrays and scalars respectively, length is the number of elements or members of a container, and the emptiness "
  "test is true exactly when a container has none and is an error on a scalar. Strings are strings whatever they look like inside.",
  ["inputs"], DOC,
  "One test checks Length on non-root arrays of fixed files; no test touches IsObject, IsArray, IsValue, IsEmpty or GetType.",
  ["inter_type.go", "others.go", "utils.go", "jin_object_others.go", "jin_object_get.go"],
  [("first-byte classification", "inter_type.go typeControlCore, GetType"), ("brace-interior scan", "inter_type.go IsEmpty"), ("separator count at nesting level 1", "others.go Length")],
  [], ["return values of IsObject, IsArray, IsValue, IsEmpty, GetType, Length"])

p("C05", "Key, value and map enumeration is complete, ordered and exact",
  "For every well-formed JSON object or array and every object in it, the listings of its keys, of its values and of both together contain every member exactly once, "
  "in document order, with exact texts (strings without quotes, containers whole, nothing for an empty object), and the map form contains exactly the same pairs; for an array "
  "the map form maps each index to its element. Fetching a list of keys below a path returns exactly those members' values in the requested order, or an error if any is missing.",
  ["inputs"], DOC,
  "The tests cover non-empty nested objects of fixed files and compare GetKeysValues against GetKeys/GetValues themselves; GetMap, GetAll and GetAllMap have one example each.",
  ["inter_get.go", "inter_iter.go", "utils.go", "jin_object_get.go"],
  [("level-1 key/value scanners", "inter_get.go GetKeys, GetValues, GetKeysValues"), ("value trimming", "utils.go cleanValueString"), ("map from iteration", "inter_get.go GetMap"), ("multi-get", "inter_get.go GetAll, GetAllMap")],
  [], ["return values of GetKeys, GetValues, GetKeysValues, GetMap, GetAll, GetAllMap"])

p("C06", "Iteration and walking visit every item once, in order, and obey the callback",
  "For every well-formed JSON object or array and every container in it, array iteration, key-value iteration and the recursive walk call back exactly once per element, member or leaf, in "
  "document order, with exact texts (and for the walk the leaf's key and its full path, which stays valid after the callback returns), and not at all for empty containers. "
  "When the callback asks to stop no further callback happens and no error is reported; when it returns an error, at any position including the last, iteration stops and that error is returned.",
  ["inputs", "histories"], DOC + "; every stop or error position",
  "The tests iterate fixed non-empty containers and never stop early or return an error from the callback; Walk has no test.",
  ["inter_iter.go", "walk.go", "jin_object_others.go", "utils.go"],
  [("array scanner", "inter_iter.go IterateArray"), ("object scanner", "inter_iter.go IterateKeyValue"), ("recursion over both", "walk.go walk")],
  [("level/inQuote/start", "separator tracking", "inter_iter.go")],
  ["sequence of callback events (arguments, count) and the returned error"])

p("C07", "Setting a value replaces exactly that value and nothing else",
  "For every well-formed JSON object or array, every path to a value below the root and every JSON value text, setting the value (set, or store on an existing key; plain, document-object or typed form) "
  "succeeds and yields the document in which that value's text, quotes included, is replaced by the new text and every other byte is unchanged. "
  "Reading the path afterwards gives the new value and the result is again well-formed.",
  ["inputs"], DOC + "; new values are any JSON value text",
  "The tests set one fixed unquoted word and read it back; they never look at the rest of the document.",
  ["inter_set.go", "inter_core.go", "utils.go", "jin_object_set.go", "jin_object_add.go"],
  [("span replacement with quote handling", "inter_set.go Set, Store; utils.go replace"), ("document-object forms", "jin_object_set.go, jin_object_add.go Store")],
  [], ["returned document of Set*, Store*"])

p("C08", "Adding, storing and renaming keys changes exactly one member",
  "For every well-formed JSON object or array and every object in it (root included, empty or not, any whitespace), adding or storing a key it does not have appends exactly that one member with exactly the given value text, "
  "and renaming a member changes only its key; every other member, element and the order keep their exact text and the result is well-formed. "
  "Adding or renaming to a key the object already has is refused with an error, whether or not the same name occurs in other objects; so is renaming to an empty key, and adding a typed (string, integer, float, boolean) value under one.",
  ["inputs"], DOC + "; new keys are any non-empty key text",
  "The tests add one fixed key and rename to one fixed key, then read only that key back; no test adds to an empty or whitespace-padded object, or with a name used elsewhere.",
  ["inter_add.go", "inter_set.go", "inter_core.go", "jin_object_add.go", "jin_object_set.go"],
  [("end-brace insertion and duplicate check", "inter_add.go AddKeyValue"), ("key span replacement", "inter_set.go SetKey"), ("add-or-replace", "inter_set.go Store, jin_object_add.go Store")],
  [], ["returned document of AddKeyValue*, SetKey, Store*"])

p("C09", "Array add and insert place exactly one element at the right position",
  "For every well-formed JSON object or array and every array in it (root included, any whitespace), add appends exactly one element and insert at an existing index puts exactly one element before the element at that index; "
  "all other elements keep their exact text and order, nothing outside the array changes and the result is well-formed. Insert outside the existing indexes and add or insert on a non-array are refused with an error.",
  ["inputs"], DOC + "; values any JSON value text, every index",
  "The tests add one word and insert one word at index 0, and read that element only; whitespace around separators and last-element insertion are never exercised.",
  ["inter_add.go", "inter_core.go", "jin_object_add.go"],
  [("end-bracket insertion", "inter_add.go Add"), ("separator placement", "inter_add.go Insert")],
  [], ["returned document of Add*, Insert*"])

p("C10", "Delete removes exactly the addressed member or element",
  "For every well-formed JSON object or array and every path to a value below the root, delete removes exactly that member (key and value) or element together with one separator; "
  "every other value keeps its exact text and order, later array elements move down by one, and the result is well-formed, whatever the position (first, middle, last, only) and whitespace.",
  ["inputs"], DOC,
  "The tests delete only the last element or member, which they have just added to the container without whitespace.",
  ["inter_delete.go", "inter_core.go", "jin_object_others.go"],
  [("separator choice by neighbouring bytes", "inter_delete.go Delete")],
  [], ["returned document of Delete"])

p("C11", "Failed edits change nothing and no call alters the caller's data",
  "An edit that returns an error leaves the document as it was: the plain functions return the input document, the document object and the parsed form keep their state. "
  "No call, successful or not, reading, editing, building or formatting, writes to the caller's document, value, key or path memory (including unused capacity behind a path slice); an edited document shares no memory with its input, and results already returned never change because of later calls.",
  ["inputs", "histories"], DOC + "; all documented failure causes (missing path, wrong container kind, existing key, empty key, bad index), slices with spare capacity, long sequences of calls",
  "The tests overwrite their only reference to the input on every edit and contain no failing edit.",
  ["inter_set.go", "inter_add.go", "inter_delete.go", "inter_get.go", "jin_object_add.go", "jin_object_set.go", "jin_object_others.go", "parse_set.go", "parse_add.go", "parse_delete.go", "utils.go", "walk.go"],
  [("copy-on-write replacement", "utils.go replace"), ("path extension by append", "inter_add.go AddKeyValue, Insert; inter_set.go Store; inter_get.go GetAll, GetAllMap; walk.go"), ("error returns carry the input document", "inter_*.go")],
  [], ["input bytes and capacity before/after each call; earlier results after later calls; state of JO and Parser after errors"])

p("C12", "Values written through typed setters read back as the same value",
  "For every integer of every offered width, every finite float, boolean and plain string text, writing it with the typed form of set, store, add, insert or add-key-value (plain, document-object or parsed form) "
  "leaves the document well-formed and reads back as the same value: integers and floats equal with the JSON number type, booleans as booleans, strings with the same text. "
  "Plain string text means any valid string content that is not itself already written as a quoted string, array or object; text that is exactly a JSON number, boolean or null may be stored bare, any other text must be stored as a string.",
  ["inputs"], "all values of int, int32, int64, uint, uint32, uint64, finite float64, bool; string contents in document (escaped) form including number-like texts",
  "No test calls any typed writer except AddKeyValueString in one example that go test does not run.",
  ["inter_set.go", "inter_add.go", "utils.go", "jin_object_set.go", "jin_object_add.go", "parse_set.go", "parse_add.go"],
  [("number formatting", "inter_add.go AddInt32.. InsertUint64, strconv bases"), ("text classification", "utils.go formatType, isInt, isFloat")],
  [], ["document after the write, typed read of the written place"])

p("C13", "Builders produce well-formed JSON holding exactly the given data",
  "For every list of values (none, one or many) the array builders produce a well-formed array with exactly those elements in order, and the object builders (from key and value lists, or from a string map) a well-formed object with exactly those pairs, in order where an order was given; "
  "a key and value list of different length gives no document. Numbers, booleans and plain strings are represented as in typed writes, and raw JSON pieces are embedded verbatim.",
  ["inputs"], "all argument lists: nil, empty and non-empty; all numeric values, booleans, plain string texts",
  "One example each with four fixed values; no float or empty input.",
  ["make.go", "utils.go"],
  [("append-with-comma builders", "make.go MakeArray*, MakeJson*"), ("text classification", "utils.go formatType")],
  [], ["returned bytes"])

p("C14", "A scheme behaves as an ordered key list with save and restore",
  "After any sequence of adding, removing, saving and restoring keys, a scheme holds exactly the ordered key list that sequence defines (a duplicate add and removal of an absent key report false and change nothing; restore returns to the keys last saved, or to the original ones), and documents built from it have exactly those keys in that order with the given values. "
  "Key lists handed in or out earlier are not altered by later operations. Checking and projecting a document through a scheme agree with which keys the document has and keep each member's value text.",
  ["histories", "inputs"], "all sequences of Add, Remove, Save, Restore, MakeJson, MakeJsonString, Check, CheckAbs, MutateJson, MutateJsonAbs, GetCurrentKeys, GetOriginalKeys",
  "One example with one fixed sequence; Check, CheckAbs and the projections are untested.",
  ["make.go", "inter_get.go", "inter_add.go"],
  [("two key slices", "make.go Scheme"), ("append and filter", "make.go Scheme.Add, Scheme.Remove"), ("projection", "make.go Scheme.MutateJson, MutateJsonAbs")],
  [("keys/originalKeys", "current and saved key lists, which may share memory", "make.go Scheme")],
  ["GetCurrentKeys, GetOriginalKeys, MakeJson, MakeJsonString, Check, CheckAbs, MutateJson, MutateJsonAbs"])

p("C15", "The parsed form answers every read exactly as the document says",
  "For every well-formed JSON object or array, parsing succeeds, and every lookup through the parsed form returns the same text as the plain lookup on the same document for every existing path and an error for every other; the regenerated form denotes the same value. "
  "The tree rendering lists every member and element exactly once, in document order, at its depth, with its text in the full form.",
  ["inputs"], DOC,
  "TestParserGet uses the fixed files only, which contain no one-element arrays of scalars; Tree has one example.",
  ["parse_core.go", "parse_utils.go", "parse_get.go", "sequence.go"],
  [("event-driven tree builder", "parse_core.go pCore"), ("index and brace stacks", "sequence.go"), ("regeneration", "parse_utils.go node.dive"), ("rendering", "parse_utils.go createTree")],
  [("node tree", "label/value/children mirror of the document", "parse_utils.go node")],
  ["Parser.Get*, GetNew, JSON, Tree, TreeFull"])

p("C16", "Parsed form and document stay in step through any edit history",
  "After any sequence of set, rename, add, insert, add-key-value and delete calls on a parsed document, successful or refused, the held document is well-formed and is exactly what the reference sequence of edits on a JSON value gives, "
  "and every read through the parsed form (every path, the tree rendering, the regenerated form) agrees with that held document. The parsed form accepts and refuses the same edits as the plain functions, and later changes to a buffer that was passed as a value have no effect.",
  ["histories", "inputs"], "edit sequences of any length over any starting document, values of every kind including containers and empty containers, array and object targets at any depth including the root",
  "Each parser test performs one or two edits on a freshly parsed document and reads one path; no test edits twice in the same array, deletes from the middle, or reads below an inserted container.",
  ["parse_set.go", "parse_add.go", "parse_delete.go", "parse_utils.go", "parse_core.go", "parse_get.go"],
  [("tree surgery next to document edit", "parse_set.go, parse_add.go, parse_delete.go"), ("relabelling", "parse_utils.go node.insert, node.deAttach"), ("ancestor refresh", "loops over curr.up in parse_*.go")],
  [("core/json", "node tree and document text that must denote the same value", "parse_utils.go Parser"), ("label", "array labels must be the element indexes", "parse_utils.go node")],
  ["Parser.JSON, Get, GetNew, Tree, TreeFull after every step"])

p("C17", "A document object behaves like the plain functions applied in sequence",
  "After any sequence of edits, a document object (created from a buffer, from a file or empty) holds exactly the document obtained by applying the corresponding plain functions in sequence to a JSON value, each method returns an error exactly when the plain function does, and every read, query and iteration method answers as the plain function on the held document. "
  "A refused edit leaves the held document unchanged.",
  ["histories", "inputs"], "all method sequences over all starting documents",
  "The document object has no test at all.",
  ["jin_object.go", "jin_object_add.go", "jin_object_get.go", "jin_object_others.go", "jin_object_set.go", "walk.go"],
  [("delegation and state update", "jin_object_*.go")],
  [("body", "the held document", "jin_object.go JO")],
  ["JO methods, JO.JSON, JO.String"])

p("C18", "Flatten and Indent change only insignificant whitespace",
  "For every well-formed JSON document, flatten removes exactly the whitespace outside strings, and indent yields a document whose flattened form is the same and in which every member and element stands on its own line indented by one tab per nesting level; neither touches any byte of a string or token. "
  "Flattening is idempotent, indenting is stable under repetition, and both are inverse up to whitespace.",
  ["inputs"], "all well-formed JSON documents, including scalars at the root, strings ending in escaped backslashes and empty containers",
  "One example each; the tests use Flatten as a helper on both sides of comparisons.",
  ["others.go", "utils.go"],
  [("in-string tracking with escape handling", "others.go Flatten, Indent"), ("tabs", "utils.go createTabs")],
  [("inQuote/level", "string and depth tracking", "others.go Indent")],
  ["returned bytes of Flatten and Indent"])

p("C19", "No input makes any call panic or fail to return",
  "Every exported function and method returns normally, with a result or an error, on every byte sequence as document, value, key or array text (empty, truncated, unbalanced, whitespace-only, binary), on every path and index, and on every sequence of such calls on a document object or parsed form; none panics, loops forever or uses memory out of proportion to its input.",
  ["inputs", "histories", "fault_sequences"], "arbitrary bytes, including well-formed documents that were truncated, bit-flipped, spliced or had bytes inserted or removed; arbitrary paths",
  "The tests only feed well-formed documents and existing paths.",
  ["inter_core.go", "inter_get.go", "inter_set.go", "inter_add.go", "inter_delete.go", "inter_iter.go", "inter_type.go", "parse_core.go", "parse_utils.go", "parse_get.go", "parse_set.go", "parse_add.go", "parse_delete.go", "make.go", "others.go", "sequence.go", "utils.go", "walk.go", "jin_object.go", "jin_object_add.go"],
  [("bad-format errors", "errors.go errBadJSON and the bounds checks that return it"), ("stack bounds", "sequence.go")],
  [], ["panics, non-termination, memory growth around every call"])

p("C20", "Concurrent use of shared documents, paths and parsed forms is safe",
  "Any number of goroutines may call the plain functions on the same document, key list and path slices (with or without spare capacity), read the same parsed form, document object or scheme, and build or format documents at the same time: "
  "there is no data race and every call returns exactly what it returns when run alone.",
  ["schedules", "inputs"], "all interleavings of read, edit-to-copy, build, format and iterate calls that share only inputs",
  "All tests are sequential and none runs under the race detector.",
  ["inter_core.go", "inter_get.go", "inter_add.go", "inter_set.go", "inter_iter.go", "parse_get.go", "parse_utils.go", "make.go", "others.go", "utils.go", "walk.go"],
  [("no package state; per-call tables", "isJSONChar tables in core, pCore, GetKeys, IterateArray, Length ..."), ("path extension by append", "inter_add.go, inter_set.go, inter_get.go, walk.go")],
  [], ["race detector reports; results against a sequential baseline"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")

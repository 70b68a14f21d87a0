#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe, "hook_needed": None}})
DOC = "every well-formed JSON document whose root is an object or array and whose objects have distinct member names"
T = "The tests walk nine fixed files (raw and flattened) and ask only for paths that node enumerated from them; "

p("C01", "Lookup returns exactly the designated value",
  "For every well-formed document and every path that designates a value in it, looking the path up returns exactly that value's bytes: the text between the quotes for a string, the source text for anything else. Member names match byte for byte in the spelling used in the document, array elements by zero-based decimal position. Whitespace, nesting, and the content of any other name or value (quotes, escapes, braces, commas, colons, non-ASCII bytes) never changes the outcome; with an empty path the whole document is returned.",
  ["inputs"], DOC + " and every path into it", T + "what surrounds a value, escapes and whitespace placement are sampled only as those files have them.",
  ["inter_core.go", "inter_get.go"], [("single pass scanner that tracks quotes, levels and the current path step", "inter_core.go core"), ("Get/GetString", "inter_get.go")],
  ["Get", "GetString", "JO.Get", "JO.GetString"])
p("C02", "A path that designates nothing is an error, never another value",
  "When a path designates nothing in a well-formed document, lookup returns an error and no value, and never a value that lies elsewhere in the document. The error is recognisable by its code: key-not-found for a name an object lacks, index-out-of-range (or empty-array) for a position an array lacks, index-expected for a non-numeric step into an array; a step below a string, number, boolean or null is an error.",
  ["inputs"], DOC + " and every path that leads nowhere in it", T + "no test asks for a path that does not exist.",
  ["inter_core.go", "errors.go"], [("level accounting on closing braces", "inter_core.go core"), ("error codes", "errors.go")], ["Get", "GetString", "ErrEqual"])
p("C03", "Set replaces exactly the addressed value",
  "Setting the value at a path that exists replaces exactly that value's source text (with its quotes, if it is a string) by the new value and keeps every other byte of the document; the path then reads back as the new value and every other path reads as before. Setting a path that does not exist is an error.",
  ["inputs"], DOC + ", every path, every new JSON value", T + "Set is only checked by reading the same path back; damage to other bytes is not looked at.",
  ["inter_set.go", "inter_core.go", "utils.go"], [("splice of the located range", "utils.go replace"), ("quote widening", "inter_set.go Set")], ["Set", "JO.Set"])
p("C04", "SetKey renames exactly one member",
  "Renaming the member a path designates changes exactly the bytes of that member's name and nothing else in the document, so the value is found under the new name and no longer under the old one. It is refused with an error, leaving the document alone, when the new name is empty, is already a member of the same object, or the path designates no object member; equal names in other objects do not matter.",
  ["inputs"], DOC + ", every path, every new name", T + "collisions, escaped names and array targets are never tried.",
  ["inter_set.go", "inter_core.go"], [("sibling lookup before rename, name end scan", "inter_set.go SetKey")], ["SetKey", "JO.SetKey"])
p("C05", "AddKeyValue appends one new member to the addressed object",
  "Adding a member to the object at a path (the root for an empty path) inserts exactly one separator if needed, the quoted name, a colon and the value after the object's last member, and keeps every other byte; the result is well-formed and the new path reads back as the value. A name the object already has is refused with the key-already-exist code, and a target that is not an object (including a string whose text looks like one) is refused with an error.",
  ["inputs"], DOC + ", every object or other target in it, every name and value", T + "only a fixed new name is added and only the added path is read back.",
  ["inter_add.go", "inter_core.go", "utils.go"], [("empty test, duplicate probe, splice before the closing brace", "inter_add.go AddKeyValue")], ["AddKeyValue", "JO.AddKeyValue"])
p("C06", "Add appends one element to the addressed array",
  "Adding a value to the array at a path (the root for an empty path) inserts exactly a separator if needed and the value after the last element, and keeps every other byte; the result is well-formed, every old element keeps its position and the new one reads back at the old length. A target that is not an array (including a string whose text looks like one) is refused with an error.",
  ["inputs"], DOC + ", every array or other target in it, every value", T + "only the last element is read back, and string or object targets are never tried.",
  ["inter_add.go", "inter_core.go", "utils.go"], [("empty test and splice before the closing bracket", "inter_add.go Add")], ["Add", "JO.Add"])
p("C07", "Insert places one element at the given position",
  "Inserting a value at position i of an array with n > i elements yields a well-formed document in which that array has n+1 elements: those before i unchanged, the new value at i, the old element i and its successors shifted by one; nothing outside the array changes. A position below 0 or not below n, or a target that is not an array, is refused with an error.",
  ["inputs"], DOC + ", every array, every position, every value", T + "only position 0 is used.",
  ["inter_add.go", "inter_core.go", "utils.go"], [("edge scan left and right of the element at the position", "inter_add.go Insert")], ["Insert", "JO.Insert"])
p("C08", "Delete removes exactly the addressed member or element",
  "Deleting the member or element a path designates yields a well-formed document equal to the original without that member or element and one separating comma: later array elements move down by one, all other names, values and strings keep their bytes and order. A path that designates nothing, and an empty path, are refused with an error.",
  ["inputs"], DOC + ", every path", T + "only an element just appended at the end is deleted again.",
  ["inter_delete.go", "inter_core.go", "utils.go"], [("edge scan for the separator to remove", "inter_delete.go Delete")], ["Delete", "JO.Delete"])
p("C09", "Store sets an existing member or adds a missing one",
  "Storing a value under a name in the object at a path gives the same document as Set when the member exists and as AddKeyValue when it does not, in one step and for every typed variant; storing under an existing array position sets that element. If the containing path does not exist or is neither object nor array, an error is returned.",
  ["inputs"], DOC + ", every container path, every name and value", "No test calls Store at all.",
  ["inter_set.go", "jin_object_add.go"], [("probe then splice or AddKeyValue", "inter_set.go Store, jin_object_add.go JO.Store")], ["Store", "StoreString", "StoreInt", "StoreFloat", "StoreBool", "JO.Store*"])
p("C10", "A failed edit changes nothing",
  "Whenever an editing operation reports an error, the document is exactly what it was before the call: the functions hand back the input document byte for byte, and a JSON object or parsed document still serialises to, and answers lookups from, its previous content.",
  ["inputs", "histories"], "every edit operation, on every well-formed document and every argument that makes it fail", "The tests stop at the first error; none looks at the document after a failed edit.",
  ["inter_add.go", "inter_set.go", "inter_delete.go", "jin_object_add.go", "jin_object_set.go", "parse_add.go", "parse_set.go", "parse_delete.go"],
  [("returning the input next to the error", "inter_*.go"), ("assigning the returned body", "jin_object_*.go")], ["all edit functions and methods, JO.JSON, Parser.JSON"])
p("C11", "Operations never modify their arguments",
  "No operation, successful or failing, modifies the document, value, name or path slices handed to it, including memory of those slices beyond their length; an edit's result is new memory, so later edits of the result never show through in the original document.",
  ["inputs"], "every public operation, every document, every path slice including ones with spare capacity", "The tests reassign results and build fresh paths, so aliasing writes stay invisible.",
  ["inter_add.go", "inter_set.go", "inter_get.go", "utils.go", "walk.go", "make.go"], [("fresh buffer in replace", "utils.go replace"), ("append on the caller's path", "inter_add.go, inter_set.go, inter_get.go")], ["arguments after each call"])
p("C12", "Calls are independent of each other",
  "The outcome of a call is a function of its arguments (and of its receiver's content) only: no earlier call on other data, whether it succeeded, failed or was stopped early by a callback, and no concurrent call on other data changes the outcome of a call or the memory another call has returned.",
  ["histories", "schedules", "inputs"], "every ordered pair of operations on unrelated data, in either order or overlapping", "Each test checks one operation on its own and never compares a call with the same call in another history, nor runs calls concurrently.",
  ["inter_core.go", "inter_iter.go", "inter_get.go", "parse_core.go", "make.go", "utils.go"], [("per-call scanner tables and buffers, no package state", "inter_core.go core, inter_iter.go, others.go")], ["all public functions"])
p("C13", "IterateArray visits every element once, in order",
  "Iterating the array at a path calls the callback once per element, in order, with exactly the value a lookup of that position returns, and not at all for an empty array (with or without inner whitespace). Iteration stops at once when the callback declines to continue or returns an error, that error is returned, and a target that is not an array gives an error without any callback. What the callback was given keeps its content.",
  ["inputs"], DOC + ", every target, every callback decision sequence", T + "empty arrays are skipped explicitly and the callback never stops early or fails.",
  ["inter_iter.go", "utils.go"], [("comma split at level 0 with trimming", "inter_iter.go IterateArray, utils.go cleanValue")], ["IterateArray", "JO.IterateArray"])
p("C14", "IterateKeyValue visits every member once, in order",
  "Iterating the object at a path calls the callback once per member, in order, with the member's name and exactly the value a lookup of it returns, and not at all for an empty object. Iteration stops at once when the callback declines to continue or returns an error (for any member, the last included), that error is returned, and a target that is not an object gives an error without any callback. What the callback was given keeps its content.",
  ["inputs"], DOC + ", every target, every callback decision sequence", T + "callbacks never fail and whitespace before a comma does not occur.",
  ["inter_iter.go"], [("colon and comma split at level 1 with trimming", "inter_iter.go IterateKeyValue")], ["IterateKeyValue", "JO.IterateKeyValue"])
p("C15", "Bulk readers agree with individual lookups",
  "The key, value, key-value and map readers return, for the object at a path, exactly its member names in order and for each name the same text a lookup of it returns, and nothing for an empty object (an empty-object error is allowed); the map reader does the same for arrays, by position. The readers for a given list of names return the lookup results in that order and fail if any of the names is missing.",
  ["inputs"], DOC + ", every target, every list of names", T + "values are only read from flattened documents and maps not at all.",
  ["inter_get.go", "utils.go"], [("GetKeys, GetValues, GetKeysValues, GetMap, GetAll, GetAllMap", "inter_get.go"), ("trimming", "utils.go cleanValueString")], ["GetKeys", "GetValues", "GetKeysValues", "GetMap", "GetAll", "GetAllMap"])
p("C16", "Length and emptiness count the real elements",
  "The length of the array or object at a path (the root for an empty path) is the exact number of its elements or members, whatever whitespace, nesting or string content it holds. The emptiness query is true exactly when that number is zero, never true for a scalar, and both report an error for a path that designates nothing.",
  ["inputs"], DOC + ", every array or object in it", T + "Length is not called on the root or on objects, IsEmpty not at all.",
  ["others.go", "inter_type.go", "utils.go"], [("comma count at level 1, blank test", "others.go Length, inter_type.go IsEmpty")], ["Length", "IsEmpty", "JO.IsEmpty"])
p("C17", "Type queries classify every value exactly",
  "For every value a path designates, the type query names its JSON type (array, object, string, number, boolean or null) and the three predicates are mutually consistent with it: is-object exactly for objects, is-array exactly for arrays, is-value exactly for the rest. A string stays a string whatever its text looks like, and a path that designates nothing gives an error.",
  ["inputs"], DOC + ", every path", "No test calls the type queries.",
  ["inter_type.go", "inter_core.go"], [("first byte of the located value", "inter_type.go typeControlCore, GetType")], ["GetType", "IsArray", "IsObject", "IsValue"])
p("C18", "Scalar getters convert exactly or report an error",
  "The int, float and bool getters (of the interpreter, the JSON object and the parser) return exactly the number or truth value the addressed text denotes, over the full range of their type, and report the matching parse-error code for any text that denotes none (fractions or overflow for int, anything but true and false for bool); they never return a wrong value without an error.",
  ["inputs"], "every addressed value text up to the stated length, every well-formed document around it", "No test calls the typed getters.",
  ["inter_get.go", "parse_get.go", "jin_object_get.go"], [("strconv on the looked-up text", "inter_get.go GetInt/GetFloat/GetBool, parse_get.go")], ["GetInt", "GetFloat", "GetBool", "Parser.GetInt", "Parser.GetFloat", "Parser.GetBool"])
p("C19", "Typed array getters convert every element in order",
  "The string, int, float and bool array getters (interpreter and parser) and the array text splitter return one entry per element, in order, whatever whitespace separates them: for strings the text between the quotes (other elements as their source text), otherwise the exact converted value. An empty array gives an empty result, an element that does not convert gives an error, and so does a value that is no array (a string whose text is an array's is outside this claim).",
  ["inputs"], DOC + ", every array in it", "Only the array splitter runs in tests, on node's compact output.",
  ["inter_get.go", "parse_get.go", "others.go", "utils.go"], [("comma split at level 1", "inter_get.go Get*Array, others.go ParseArray"), ("trimming", "utils.go cleanValueString")], ["GetStringArray", "GetIntArray", "GetFloatArray", "GetBoolArray", "ParseArray", "Parser.Get*Array"])
p("C20", "Flatten and Indent change only whitespace outside strings",
  "Flattening removes exactly the whitespace outside strings and keeps every other byte in order; indenting adds only whitespace outside strings, so flattening an indented document gives the flattened original. Indented output puts every element and member on its own line, indented by one tab per nesting level, and both operations keep strings (with any escapes) byte for byte.",
  ["inputs"], "every well-formed document", "One example document each; no escapes, no whitespace in strings.",
  ["others.go", "utils.go"], [("quote tracking", "others.go Flatten, Indent"), ("tabs", "utils.go createTabs")], ["Flatten", "Indent"])
p("C21", "A parsed document answers like the interpreter",
  "For every well-formed document, parsing succeeds and the parsed document returns for every path exactly what the interpreter's lookup returns on the text: the same value where the path designates one (arrays of one element, empty containers and deep nesting included), an error where it designates none. Serialising it before any edit gives the document back, and a value written out again from the tree equals the value up to whitespace.",
  ["inputs"], DOC + ", every path", T + "one-element arrays of scalars and missing paths do not occur.",
  ["parse_core.go", "parse_get.go", "parse_utils.go", "sequence.go"], [("one pass tree builder with index and brace stacks", "parse_core.go pCore, sequence.go"), ("tree walk", "parse_utils.go walk")], ["Parse", "Parser.Get", "Parser.GetNew", "Parser.JSON"])
p("C22", "Parser edits keep text and tree in step with the interpreter",
  "After any sequence of edits on a parsed document (set, rename, add member, add, insert, delete), its serialisation is the document the interpreter's edits produce in the same order, and every lookup on the parsed document equals the interpreter's lookup on that serialisation, below newly stored arrays and objects as well. An edit the interpreter refuses is refused.",
  ["histories", "inputs"], "every sequence of edits up to the stated length from every well-formed document of the stated shapes", "Each parser test does one or two edits and reads back only the edited path.",
  ["parse_add.go", "parse_set.go", "parse_delete.go", "parse_utils.go", "parse_core.go"], [("parallel update of the node tree and of the text", "parse_add.go, parse_set.go, parse_delete.go")], ["Parser.Set/SetKey/Add/AddKeyValue/Insert/Delete", "Parser.Get", "Parser.JSON"])
p("C23", "Builders produce the well-formed document they were given",
  "Every array, object and map builder yields well-formed JSON that holds exactly the given elements in the given order (or exactly the given name-value pairs), for any number of them including none; finite numbers and booleans read back equal, strings read back with the same text (a string delimited like an array, an object or a quoted string is taken as JSON source). A name list and value list of different length yield no document.",
  ["inputs"], "every list of values up to the stated length", "Two example calls with fixed values.",
  ["make.go", "utils.go"], [("append with trailing separator removal", "make.go"), ("literal detection", "utils.go formatType")], ["MakeArray*", "MakeJson*", "MakeEmptyArray", "MakeEmptyJson", "Scheme.MakeJson*"])
p("C24", "A scheme behaves like an ordered key set with one saved copy",
  "Over any sequence of add, remove, save and restore, a scheme's current keys are the ordered set those operations define and its original keys the last saved list (initially the constructor's); add and remove report whether they changed it, restore brings back the saved list, and lists obtained earlier or passed in never change behind the caller's back. The fit checks accept a document exactly if it has every key (and, for the absolute check, no other), and instantiation and mutation yield one member per current key, in order (a name missing in the mutated document gives an empty string, or an error from the absolute variant).",
  ["histories", "inputs"], "every sequence of scheme operations up to the stated length", "One fixed example sequence.",
  ["make.go"], [("key slices shared between current and original", "make.go Scheme")], ["Scheme methods"])
p("C25", "Malformed input never crashes or hangs a call",
  "Every public operation returns normally, with a value or an error, on any byte string whatever (empty, blank, truncated at any byte, unbalanced or binary) and on any path, name or position: it neither panics nor loops forever. Truncating a well-formed document anywhere is enough to try this.",
  ["inputs", "fault_sequences"], "every byte string up to the stated length and every truncation of longer documents, for every operation", "Tests feed well-formed documents only.",
  ["inter_core.go", "inter_get.go", "inter_add.go", "inter_set.go", "inter_delete.go", "inter_iter.go", "inter_type.go", "others.go", "parse_core.go", "utils.go"],
  [("index guards in the scanning loops", "inter_core.go, utils.go, inter_iter.go")], ["all public functions"])
p("C26", "Walk visits every scalar exactly once with its path",
  "Walking a document calls the callback once for every string, number, boolean and null in it, in document order, with the last path step, the value a lookup returns and the full path to it; arrays and objects, empty ones included, are descended into and never abort the walk. It stops at once when the callback declines to continue or returns an error, and returns that error; paths handed to earlier callbacks stay as they were.",
  ["inputs"], DOC + ", every callback decision sequence", "No test calls Walk.",
  ["walk.go", "inter_iter.go"], [("recursion over the iterators", "walk.go walk")], ["Walk", "JO.Walk"])
p("C27", "JSON object methods mirror the functions",
  "Every method of a JSON object returns the same result and error as the function of the same name applied to its content, and an editing method that succeeds leaves exactly the document that function returns as the new content. A newly created JSON object is the empty object; one read from a file holds exactly the bytes of the file, and a file that cannot be read gives an error and no object.",
  ["inputs", "histories"], DOC + ", every method and argument", "No test uses the JSON object type.",
  ["jin_object.go", "jin_object_add.go", "jin_object_get.go", "jin_object_set.go", "jin_object_others.go"], [("delegation", "jin_object*.go")], ["JO methods"])
p("C28", "Typed writers round-trip",
  "Every typed edit (set, store, add, add-member and insert for integers of all widths, floats, booleans and strings; interpreter and parser) writes text that keeps the document well-formed and reads back through the getters as the value written: integers and floats in decimal notation, booleans as true or false, strings with the same text whatever number-like or word-like form that text has (text delimited like an array, an object or a quoted string is taken as JSON source; non-finite floats are outside this claim).",
  ["inputs"], "every value of the argument type within the stated sets, every string up to the stated length without raw quotes, backslashes or control characters", "No test calls a typed writer except two string ones in examples.",
  ["inter_add.go", "inter_set.go", "parse_add.go", "parse_set.go", "utils.go", "jin_object_add.go"], [("strconv formatting", "inter_add.go, inter_set.go"), ("literal detection", "utils.go formatType")], ["Set*/Store*/Add*/AddKeyValue*/Insert* typed variants"])

p("C29", "An error names its cause",
  "Whenever an operation of the interpreter, the JSON object or the parser fails on a well-formed document, its error is recognised by ErrEqual under exactly one of the exported codes, and by the one that fits: key-not-found for a missing name; index-out-of-range, or empty-array, for a missing position; index-expected for a name used in an array (the parser may say key-not-found for all three); object-expected and array-expected for a target of the wrong kind; key-already-exist for a duplicate name; null-key and null-path for what is empty; and the parse code of the type for text a typed getter cannot convert. Where several causes apply, it names any of them (an empty container may always be called empty); storing into a string, number or word may report the failed lookup. What the path, names and values contain never changes which code it is.",
  ["inputs"], "every operation, on " + DOC + " and every argument that makes it fail", "No test looks at an error's code.",
  ["errors.go", "inter_core.go", "inter_add.go", "inter_set.go", "inter_get.go", "parse_add.go", "parse_set.go"], [("code at the end of the text", "errors.go ErrEqual"), ("internal decisions taken on codes", "inter_set.go Store, inter_add.go AddKeyValue")], ["ErrEqual of every returned error"])

p("C30", "The tree listing shows every node once",
  "The tree listing of a parsed document has exactly one line for every member and element, in document order, indented by one tab per level below the root's children, and ending in the member's name or the element's position; the full listing also shows each one's source text, the names padded to six characters. The same holds after edits of the parsed document, and listing changes nothing.",
  ["inputs", "histories"], DOC + ", and every single edit of one", "No test calls Tree or TreeFull on anything but an example.",
  ["parse_utils.go", "parse_core.go"], [("recursion over the nodes", "parse_utils.go createTree")], ["Parser.Tree", "Parser.TreeFull"])
p("C31", "Histories of edits have the meaning of their edits",
  "After any history of edits (set, rename, add member, add, insert, delete, store; as functions on the text or as methods of a JSON object) the document is well-formed and holds exactly the names and values, in exactly the order, that doing the same edits on an abstract tree gives; an edit succeeds exactly when it is possible on that tree, and a refused one changes nothing. Setting a value back or renaming a member back restores the document byte for byte, and deleting what has just been added or inserted restores its contents.",
  ["histories", "inputs"], "every history of edits up to the stated length from the stated documents", "Each test does one edit, or one and its reversal, on a document that node wrote; nothing edits what edits have left.",
  ["inter_set.go", "inter_add.go", "inter_delete.go", "jin_object_add.go", "jin_object_set.go", "utils.go", "inter_core.go"], [("splicing into a text earlier edits have left", "utils.go replace")], ["edit functions and JO methods, Get afterwards"])
p("C32", "Concurrent readers of one document do not disturb each other",
  "Any two calls that only read (lookups, typed getters, iteration, walk, type and length queries, formatting, parsing, serialising, listing, scheme builders and checks, and edits that return a new text) may run at the same time on the same text, the same JSON object, the same parsed document or the same scheme: each returns what it returns alone, neither writes memory the other one uses, and what they read is unchanged afterwards.",
  ["schedules", "inputs"], "every pair of reading calls on the same thing, every interleaving", "No test runs two calls at once.",
  ["parse_get.go", "parse_utils.go", "jin_object_get.go", "make.go", "inter_get.go", "inter_core.go"], [("no state is kept between reads", "parse_get.go, jin_object_get.go, make.go")], ["results of both calls, the thing read"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")

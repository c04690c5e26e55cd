#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script only for readability of the text).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","No input text can crash or hang a parser",
"Given any byte sequence and any starting offset from zero to past its end, each text entry point (JSON document, JSON document at an offset, stream of documents, URL query string, YAML) returns after finite work with either a value or an error, never both or neither, and never panics, overflows the stack or exhausts the memory, however deep the nesting. The end offset reported for a parsed document lies between the start offset and the end of the text, and every value returned can be printed.",
["inputs"],"every byte sequence, and every start offset within it",
"Tests parse a few dozen hand-picked texts; hostile input is an unbounded space of malformed token orders, truncated escapes and nesting depths.",
["jsonutils.go","parse_session.go","querystring.go","yamlutils.go","errors.go"],
[("bounds checks before every byte access, depth limit, error returns","jsonutils.go: parseQuoteString, parseString, parseJSONValue, parseDict, parseArray, ParseStream, ParseJsonStreams"),("query string tree building","querystring.go: addQueryStringSeg")],
["Parse, ParseString, ParseStream, ParseJsonStreams, ParseQueryString, ParseYAML"])
p("C02","Standard JSON text is read with its standard meaning",
"Every text that is a valid RFC 8259 JSON document parses without error to the value the standard assigns it: same nesting, same member names and order of elements, last of duplicate members wins, strings decoded character for character (all escapes including surrogate pairs), integers that fit 64 bits exact and every other number the nearest double. White space between tokens never changes the result, and parsing a document found at an offset inside a longer text gives the same value and the offset just behind it.",
["inputs"],"every RFC 8259 document (numbers within double range, no member named like the reserved node-id key)",
"Tests compare a handful of documents; the space of escapes, number spellings, white space placements and nestings cannot be sampled by examples.",
["jsonutils.go","interface.go","access.go"],
[("lenient recursive-descent parser","jsonutils.go: parseString, parseQuoteString, parseJSONValue, parseDict, parseArray")],
["value of Parse read back through the accessors and through Interface, against Go's encoding/json"])
p("C03","Printing a document is lossless standard JSON",
"The compact text printed for any document built from null, booleans, 64-bit integers, finite floats, valid UTF-8 strings, arrays and objects is valid RFC 8259 JSON that a standard decoder reads as exactly that document, with members in sorted order and each once. Parsing the text again yields an equal document whose text is identical (negative zero may come back as zero, a float with an integral value as that integer, a 32-bit float as the shortest text of that precision), and the plain Go value exported for the document is the same data.",
["inputs"],"every document tree: any shape, any string content, any integer, any finite float",
"Tests print a few documents; escaping and number formatting must hold for every character and every number.",
["write.go","string.go","jsonutils.go","interface.go"],
[("string escaping","jsonutils.go: escapeJsonChar, quoteString"),("number formatting","string.go"),("recursive writer","write.go"),("plain value export","interface.go")],
["String, Interface, Parse(String)"])
p("C04","Pretty printing changes only white space",
"The indented text printed for a document is valid RFC 8259 JSON and denotes exactly the same document as the compact text: removing the white space outside of strings gives the compact text, byte for byte. Each entry starts a line, and the entries of a container line up deeper than its brackets, which line up too. This holds for any nesting, empty containers, member names and strings needing escapes, and scalars at the top.",
["inputs"],"every document tree",
"Tests only log the pretty text; nothing compares it with the document.",
["jsonutils.go"],[("indenting writers","jsonutils.go: PrettyString, prettyString of every type")],["PrettyString against String"])
p("C05","Incomplete or mis-nested documents are never accepted",
"A text that starts an object or array but ends before the matching close bracket is rejected with an error, at every possible cut point; so is a text in which a container is closed by the wrong bracket, a member lacks its colon, two elements lack a comma between them, or a string in it holds a \\u or \\x escape with a character that is no hex digit. No prefix of a document is silently taken for the document.",
["inputs","crash_points"],"every object or array document, every byte position at which it may be cut, every bracket swapped, every separator removed",
"A test picks single malformed strings; the guarantee is over every cut of every document.",
["jsonutils.go"],[("end-of-text checks in the container loops","jsonutils.go: parseDict, parseArray, parseQuoteString")],["error result of Parse / ParseStream"])
p("C06","Relaxed spellings mean the same as their strict JSON form",
"The reader's documented leniencies never change meaning: single-quoted strings, unquoted member names and words (runs of letters, digits and signs that are no number), \\x hex escapes, true/false/null and their synonyms yes/no/none in any letter case, a trailing comma, and a missing array element or member value read as null, each give the document of the equivalent strict text. They may be combined freely at any position of a document, and quoted words always stay strings.",
["inputs"],"every document and every choice of spelling for each of its tokens",
"Tests hold one example per spelling; combinations and positions are not covered.",
["jsonutils.go"],[("bare word and quote handling","jsonutils.go: parseString, parseQuoteString, parseJSONValue")],["Parse of the relaxed text against Parse of the strict text"])
p("C07","A stream of documents is split exactly",
"Reading a text that consists of objects and arrays with arbitrary bracket-free filler before, between and after them yields exactly those documents, in order, none lost, merged or repeated. Reading documents one at a time, each from the end offset of the one before, gives the same sequence, and a broken or truncated piece that is set off by white space and leaves no string open never prevents the complete documents before and after it from being delivered.",
["inputs","histories"],"every sequence of documents and filler text, with any single document broken",
"The tests read two sample streams.",
["jsonutils.go"],[("offset bookkeeping","jsonutils.go: ParseStream, ParseJsonStreams")],["ParseJsonStreams, ParseStream"])
p("C08","An object behaves as a sorted map under any edit history",
"After any sequence of edits (set, add along a path of names creating the objects in between, remove, remove ignoring case, merge from another object with either side winning, copies with names included or excluded), an object holds exactly the members a plain map would hold. Its names are listed sorted and without duplicates, size, emptiness, membership, lookups, map export and printed text all agree, and every edit reports the documented result. An object that was merged from, or that a copy was taken of, keeps its own members whatever is edited in the other afterwards.",
["histories"],"every sequence of edits over any names and values",
"Tests run single edits on one small object; interactions between edits are a combinatorial history space.",
["access.go","dict.go","clone.go","size.go","length.go","iszero.go","values.go"],
[("sorted slice kept in order","access.go Set/Remove/Add/_get, dict.go Update/UpdateDefault")],["all accessors of an object after each edit"],
[("members","sorted list of name/value pairs","jsonutils.go JSONDict.data")])
p("C09","An array behaves as a list under any edit history",
"After any sequence of appends, replacements at an index and copies, an array holds exactly the elements a plain list would hold, in order. Length, emptiness, indexing from the front and from the back, out-of-range errors, list export and printed text all agree with that list.",
["histories"],"every sequence of edits, every index",
"Tests build one array.",
["access.go","clone.go","utils.go","size.go","length.go"],[("slice with bounds handling","access.go: NewArray, Add, SetAt, GetAt, GetArray; clone.go Copy")],["all accessors of an array after each edit"])
p("C10","Copies and exported collections are independent of the original",
"Editing a deep copy at any depth, or the original after the copy was taken, never shows in the other, and a deep copy is equal to its original with identical text. Shallow copies, merge results and the lists and maps handed out by accessors own their top level: adding, replacing or removing entries in one never changes another.",
["histories"],"every document, every interleaving of copies and edits at any depth on either side",
"Tests compare a deep copy right after taking it and never edit afterwards.",
["clone.go","dict.go","access.go","values.go"],[("recursive copy","clone.go: DeepCopy"),("fresh containers","clone.go Copy*, access.go GetMap/GetArray, dict.go Update")],["both documents after each edit"])
p("C11","Equality is structural and a diff partitions two objects",
"Two documents compare equal exactly when they have the same type, the same scalar value, and equal elements or members; the relation is reflexive, symmetric and independent of how each document was built. The four parts of an object diff (only in the first, in both but different, in both and equal, only in the second) together contain every member of both objects exactly once, with the right values, and leave both inputs unchanged.",
["inputs"],"every pair of documents",
"Tests diff two pairs and check a few equalities.",
["equals.go","dict.go"],[("pairwise walk of two sorted maps","equals.go, dict.go Diff")],["Equals, Diff"])
p("C12","Path lookups and typed reads agree with the document",
"Looking up a path of names returns exactly the member found by walking the names one by one (ignoring case: the exact match first, otherwise one that matches ignoring case), and otherwise an error: a missing name, a path through something that is not an object, or a name applied to a scalar. Typed reads (integer, float, boolean, string, time, list, map, element) of any path return the value converted as documented or an error, never a wrong value, and agree with first looking the path up and then reading.",
["inputs"],"every document, every path, every typed read",
"Tests read a few paths of one document.",
["access.go"],[("_get walk and per-type accessors","access.go")],["Get*, Contains*, Int, Float, Bool, GetString, GetTime, GetArray, GetMap, GetAt"])
p("C13","A Go value survives the trip to JSON text and back",
"Marshalling a value made of structs, pointers, slices, arrays, string-keyed maps, strings, booleans, integers that fit 64-bit signed, finite floats, times and tri-states, printing it, parsing the text and unmarshalling into a fresh variable of the same type gives an equal value. Only the documented omissions are exempt: fields tagged as ignored, empty values that may come back as absent, and time below a microsecond.",
["inputs","programs"],"every such Go type and every value of it",
"Tests round-trip a few fixed structs.",
["marshal.go","unmarshal.go"],[("reflection walk out","marshal.go _marshalValue"),("reflection walk in","unmarshal.go unmarshalValue")],["Unmarshal(Parse(Marshal(v).String()))"])
p("C14","Omission tags decide exactly which members are written",
"A field is left out of the marshalled object exactly when its tags and value say so (ignored; empty string, list, map, nil pointer or unset tri-state by default; zero or false only when tagged to omit them; never when tagged to allow empty, except for nil values), and written under its tagged or derived name otherwise. Marshalling everything writes all fields that are not ignored, with null for nil and unset values. A document held in a value is written as it is.",
["inputs","programs"],"every combination of field kind, value and tag",
"Tests cover a few tags on a few kinds; the product of kinds, values and tags is not enumerated.",
["marshal.go"],[("per-kind omission rules","marshal.go marshalSlice/Map/Struct/Int64/Float64/Boolean/String/Time/Tristate")],["member names and values of Marshal and MarshalAll"])
p("C15","Cyclic and shared pointer graphs marshal finitely and come back isomorphic",
"Marshalling any graph of structs linked by pointers (fields, lists or maps of pointers), however shared or cyclic, terminates, and printing, parsing and unmarshalling the text gives a graph in which the same nodes are reached by the same paths; in particular every cycle is closed again to the same node; marshalling it again gives the same text. A deep copy of such a document (marshalled or parsed) is equal to it and independent of it, its deep copy and pretty text print the same references, and lookups in it through a reference, unmarshalling what a path through references leads to, and its export to plain Go values, see the referred object.",
["inputs"],"every directed graph of nodes up to the bound, with every edge assignment",
"Tests hold two loops.",
["jsonpointer.go","json_pointer_trace.go","marshal_session.go","parse_session.go","unmarshal_session.go","clone.go"],
[("trace of visited pointers","json_pointer_trace.go"),("node ids and references","jsonpointer.go"),("resolution on unmarshal","unmarshal_session.go")],["graph rebuilt from text, against the original graph"],
[("trace","pointers being marshalled","json_pointer_trace.go"),("objectMap","node id to target and pending references","unmarshal_session.go")])
p("C16","Unmarshalling any document into any type is total and converts as documented",
"Unmarshalling any document into a settable target of any supported type either fills it or returns an error, and never panics. Where source and target types differ, the documented conversions apply (numbers, booleans and text into each other, null clears, a single text becomes a one-element list, containers into text become JSON text, JSON value types keep the source value), and incompatible pairs are reported as errors instead of being ignored.",
["inputs","programs"],"every pair of document and target type, with fresh and pre-filled targets",
"Tests try a dozen pairs out of a large product.",
["unmarshal.go"],[("per source type switch over target type and kind","unmarshal.go _unmarshalValue of every type")],["target and error after Unmarshal"])
p("C17","Deprecated fields mirror the fields that replace them",
"When a field is tagged as deprecated by another, unmarshalling a document that carries only the old name sets both the old field and, along any chain of deprecations, its replacements, and marshalling writes the replacement's value under the old name as well. Chains, several old names for one new field, embedded declarations and even circular declarations are handled without hanging.",
["inputs","programs"],"every deprecation graph up to the bound and every subset of names present",
"Tests cover one chain.",
["unmarshal.go","marshal.go","consts.go"],[("forwarding with visited set","unmarshal.go setStructFieldAt"),("dep fields resolution","marshal.go struct2JSONPairs")],["struct fields, marshalled members"])
p("C18","Query strings carry a document without loss",
"Writing an object whose leaves are non-empty texts, numbers or booleans as a URL query string and parsing it again gives the same object with every leaf as text, for any nesting of objects and lists and any characters in names (except the separating dot and index-like names) and values. Parsing does not depend on the order in which parameters appear, repeated parameters give a list, and every parameter value shows up in the result or the parse reports an error.",
["inputs"],"every object tree of that kind, every permutation of parameters, every multiset of parameters",
"Tests round-trip two values.",
["querystring.go","stringsegment.go"],[("flattening and index segments","querystring.go _queryString, addQueryStringSeg; stringsegment.go ordering")],["ParseQueryString(QueryString(d)), permutations"])
p("C19","YAML output reads back as the same document",
"The YAML text produced for any document with valid UTF-8 text parses back, with this package and as plain YAML, to the same document: strings that look like numbers, booleans, nulls, dates or YAML syntax stay strings, and numbers keep their value. YAML block, flow and quoted styles of one document all parse to the same value as its JSON text.",
["inputs"],"every document tree; every string content",
"Tests convert one document.",
["yamlutils.go"],[("conversion through JSON text","yamlutils.go")],["ParseYAML(YAMLString(d))"])
p("C20","Types with their own JSON methods are honoured wherever they occur",
"A type that implements the standard JSON marshalling or unmarshalling interface is written and read through these methods in every position (top level, field, list element, map value, pointer, interface), each exactly once per occurrence, receiving the exact JSON text of the value. Types registered as serializable interfaces are recreated as the registered type.",
["programs","inputs"],"every position and receiver kind of a custom type",
"Tests cover a few positions.",
["std_json.go","reflect.go","marshal.go","unmarshal.go"],[("method detection","std_json.go indirectStdUnmarshaler / tryStdMarshal"),("registered types","reflect.go")],["calls recorded by the custom type, values"])
p("C21","Concurrent readers and concurrent independent calls are safe",
"Any number of goroutines may read the same document at once (lookups, printing in every format, equality, copying, unmarshalling from it) and call the package's functions on their own data at once, in every interleaving, without data races, and each call returns what it would return running alone.",
["schedules"],"every pair of operations and every interleaving of their steps up to the preemption bound",
"The tests are single-threaded.",
["jsonutils.go","string.go","write.go","access.go","marshal.go","unmarshal.go","interface.go","clone.go","querystring.go"],
[("documents are not written by reads; no shared scratch state","whole package")],["results of both operations in every interleaving; race detector"])
p("C22","Field names and embedding follow one rule in both directions",
"Each exported struct field has one member name: its tag name, or else its snake-case form; the fields of embedded structs (by value or by pointer, at any position) are members of the outer object, and an ambiguity prefix separates colliding names. Unmarshalling finds a field by that name, and also by its Go name (an ordinary first word in either capitalisation) or its snake-case form when no exact name matches, and ignores unknown members.",
["programs","inputs"],"every struct layout up to the bound and every spelling of a name",
"Tests use a few layouts.",
["unmarshal.go","marshal.go"],[("name lookup","unmarshal.go setStructFieldAt"),("field walk","marshal.go struct2JSONPairs")],["members written, fields filled"])
p("C23","Updating a value from another changes only what the source carries",
"Updating a target from a source (or unmarshalling into a filled target) overwrites exactly the fields for which the source object has a member, whatever the source's type (struct, map or document), and leaves all others untouched. Maps gain or replace the carried entries, lists are replaced, nested structs and pointed-to structs are updated in place, null clears.",
["inputs","histories"],"every target state, source state and sequence of updates",
"Tests update one struct.",
["update.go","unmarshal.go"],[("marshal then unmarshal over the target","update.go")],["target after Update"])
p("C24","After-unmarshal hooks run once their structure is complete",
"The after-unmarshal method of a struct is called whenever an object has been unmarshalled into it, after all its members and those of its embedded structs have been set and after the hooks of the structs embedded in it, wherever the struct occurs (top level, field, list, map, pointer). A struct's own hook runs exactly once per object, also when some members failed to convert.",
["programs","inputs"],"every position of hook-bearing structs up to the bound",
"Tests cover one position.",
["unmarshal.go"],[("hook dispatch","unmarshal.go callStructAfterUnmarshal")],["order of calls recorded by the hooks"])
p("C25","Field helpers read queries and required fields faithfully",
"The helper reads (string list of a field, text list from a query, boolean query flag with default, list of numbered prefix fields, first non-empty of several names, required-field check) return exactly what the document holds: for each shape in which a value can occur (absent, null, scalar of each type, list, numbered object) the documented result. The required-field check fails exactly when a listed field is absent or null, and names it.",
["inputs"],"every document shape and key list up to the bound",
"Tests cover some helpers with one input each.",
["utils.go","querystring.go"],[("helpers","utils.go; querystring.go QueryBoolean")],["results of each helper"])
p("C26","Reads, prints and unmarshals never modify sources or shared constants",
"No sequence of reads, comparisons, copies, prints, marshals or unmarshals (including repeated unmarshals into the same targets) changes the document read from, documents obtained earlier, or the shared null, true and false values. Only edits made explicitly on a document change it.",
["histories"],"every sequence of non-editing operations up to the bound over a shared pool of documents and targets",
"Tests look at one call at a time and never re-read the inputs.",
["unmarshal.go","marshal.go","clone.go","dict.go","equals.go","access.go"],[("targets are replaced, never written through","unmarshal.go")],["text of every document after each operation"])
p("C27","Amounts in US and European notation become the right numbers",
"A text holding a number in plain, US (1,234.56) or European (1.234,56) notation, with optional sign, unmarshals into a numeric field that can hold it as exactly that number; a form valid in both is read as US. A text that is no such number is an error and leaves the field as it was, and empty text leaves it untouched.",
["inputs"],"every text over digits, sign, dot and comma up to the bound",
"Tests list a few amounts.",
["currency.go","unmarshal.go"],[("normalisation","currency.go"),("text to number","unmarshal.go JSONString._unmarshalValue")],["numeric field after Unmarshal"])
p("C28","A parse error points at the right place",
"A JSON error built for any text, position and message reports the position clamped into the text and an excerpt of at most ten bytes before and ten bytes from that position, separated by a caret and equal to the text's own bytes, without panicking for any position. Errors returned for malformed documents carry such a report.",
["inputs"],"every text length, position and message",
"The test holds a few positions.",
["errors.go"],[("excerpt slicing","errors.go NewJSONError")],["Error text"])
p("C29","Timestamps keep the instant",
"A time marshalled anywhere in a value, printed, parsed and unmarshalled denotes the same instant down to the microsecond whatever its zone (of whole minutes), the zero time stays zero, and the second-resolution time text is the UTC rendering of the instant. Reading a time from a document accepts each of the documented layouts and yields the instant written.",
["inputs"],"every instant in years 1 to 9999, zone and layout in the bound",
"Tests use a few instants.",
["marshal.go","unmarshal.go","access.go","utils.go"],[("time text out","marshal.go marshalTime, utils.go NewTimeString"),("time text in","access.go GetTime, unmarshal.go")],["time values"])
json_lines="\n".join(json.dumps(x,ensure_ascii=False) for x in P)+"\n"
import os
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w").write(json_lines)
for x in P: assert len(x["title"])<=80,x["title"]

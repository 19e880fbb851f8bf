#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so the long lines stay editable)."""
import json, os
D='instant-xml/src/de.rs'; S='instant-xml/src/ser.rs'; I='instant-xml/src/impls.rs'; A='instant-xml/src/any_element.rs'
L='instant-xml/src/lib.rs'; MD='instant-xml-macros/src/de.rs'; MS='instant-xml-macros/src/ser.rs'; ML='instant-xml-macros/src/lib.rs'
def m(*xs): return [{"name":n,"where":w} for n,w in xs]
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe,hook=None,state=None):
    a={"files":files,"mechanism":m(*mech),"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":me,"where":w} for n,me,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

prop("C01","An acknowledged write reads back as the value that was written",
 "When writing a value to a sink reports success, the sink holds one complete, well-formed XML document, and reading that document back as the same type yields an equal value, whatever text, numbers, nesting, optional parts, lists and namespaces the value contains. A value that XML cannot carry (for example text with forbidden control characters) is refused with an error instead of being acknowledged. Writes that were interrupted, retried or followed by a crash never change what an earlier acknowledged document reads back as, and writing the same value again yields a document with the same meaning.",
 ["inputs","histories","crash_points","fault_sequences"],
 "all values of all derivable type shapes (attributes, direct text, options, boxes, lists, tuple/unit/transparent structs, forward and scalar enums, every built-in scalar, namespaces and prefixes), and all histories of put/retry/crash/restart over a simulated store of documents",
 "The tests compare fixed strings for a few dozen hand-picked values; round-trip has to hold for every value (escapes at every position, every number, every optional-part combination, every nesting of namespaces) and no test crashes or retries anything.",
 [S,I,MS,D,MD,L],
 [("text and attribute escaping","encode in "+I),("scalar formatting and parsing","ToXml/FromXml impls in "+I),("derived writers","StructOutput in "+MS),("derived readers","deserialize_struct and friends in "+MD),("reference decoding","decode in "+D)],
 ["to_writer/to_string result and sink bytes","from_str of the durable bytes","instant_xml::AnyElement of the durable bytes"],None,
 [("acknowledged document","bytes in a store slot whose write returned Ok","simulated sink")])

prop("C02","A failing sink is always reported and never written past",
 "If the output sink fails at any point while a value is written, the writer returns a formatting error, makes no further write to that sink, and the bytes the sink did accept are exactly a prefix of the document a healthy sink would have received. If the writer reports success, the sink received the whole document, however the sink splits or delays the pieces. The same value and the same fault point always give the same outcome, and a later write to a healthy sink is unaffected.",
 ["fault_sequences","crash_points","inputs","schedules"],
 "every position (between and inside write calls) at which a sink can fail or accept a short prefix, transient and permanent failures, over all values of all type shapes and over direct use of the writer API",
 "Every test writes into an infallible String; no test has a sink that fails, so no error path of any write is ever executed.",
 [S,I,MS,L],
 [("error propagation by ? at each output call","Serializer methods in "+S),("derived writers propagate","serialize bodies in "+MS),("scalar writers propagate","DisplayToXml in "+I)],
 ["to_writer result","the sequence of calls and bytes seen by the sink"],None,
 [("sink failure state","whether the sink has returned an error and what it accepted","simulated sink")])

prop("C03","A torn or truncated document is never accepted",
 "If a document is cut off anywhere before the end of its root element's closing tag, every way of reading it (typed, generic element capture, or node by node) reports an error; no prefix is ever mistaken for a shorter complete document. After the error, reading comes to an end in a bounded number of steps. The document cut exactly at the end of its root element reads as the full value.",
 ["crash_points","inputs","fault_sequences"],
 "every byte position of every document as the crash point of its write or transfer, for every type shape, including cuts inside tags, attributes, references, comments, CDATA and multi-byte text, and torn documents that mix two writes",
 "The tests never hand the reader a truncated document; the number of (document, cut) pairs is unbounded.",
 [D,A,MD],
 [("end of input while elements are open","Context::next in "+D),("end of element handling","Deserializer::next in "+D),("generic capture loop","AnyElement::deserialize in "+A),("derived read loops","deserialize_struct in "+MD)],
 ["from_str result","Deserializer node iteration"],None)

prop("C04","Corrupted input never panics, hangs or exhausts memory",
 "Whatever bytes arrive in place of a document, reading them (typed, generic capture, node by node, with every public reader operation) returns a value or an error: no panic, no overflow, no endless iteration, and memory and steps bounded by a small multiple of the input size. Reading the same bytes again gives the same outcome. An error left behind by one document does not affect the reading of any other.",
 ["inputs","fault_sequences","histories"],
 "all byte strings that are valid UTF-8, reached by arbitrary sequences of bit flips, byte edits, splices, duplications, deletions and token insertions applied to real documents, and all histories of reader calls on them",
 "The tests feed a handful of well-formed and slightly malformed strings; absence of panics quantifies over every input and call order.",
 [D,I,A,MD],
 [("reference decoder state machine and slicing","decode in "+D),("level arithmetic and stack handling","Deserializer::next, Context::next in "+D),("scalar parsing","FromXml impls in "+I),("namespace lookup","Deserializer::parent in "+D)],
 ["from_str result","panic/abort of the process","allocation counter","step counter"],None)

prop("C05","Input limits hold exactly against hostile documents",
 "The configured maximum nesting depth, attributes per element and namespace declarations per element are enforced exactly and for every element of the document: input at a limit is accepted, input one beyond it is refused with an error, whether the element is consumed, captured generically, skipped or ignored. Limits apply per element and per path (many siblings, or many elements each at the limit, stay acceptable), and defaults apply when none are configured. Hostile depth or width never overflows the stack or grows memory beyond the limits.",
 ["inputs","configurations","histories"],
 "all limit configurations, all shapes of documents at, just below and beyond each limit at any place of the tree, self-closing or not, and all ways of consuming them",
 "No existing test exercises any limit, let alone the boundary at each place of a document under each way of consuming it.",
 [D],
 [("depth check at element start","Context::next in "+D),("attribute count check","Context::next in "+D),("namespace declaration check","Context::next in "+D),("configuration","Deserializer::with_limits, Limits::default in "+D)],
 ["from_str / Deserializer results","stack and allocation budget"],None)

prop("C06","Concurrent, interleaved and nested use is isolated and deterministic",
 "Any number of threads reading and writing documents, in any interleaving, and user code that starts another read or write from inside a conversion, each obtain exactly the result they would have obtained alone. The output for a value depends only on the value and its type: not on hash seeds, on what was written or read before, on failures or panics of other operations, or on the thread. One operation's errors never surface in another.",
 ["schedules","histories","fault_sequences"],
 "all interleavings of several readers and writers at every point where control leaves the library (sink writes, user conversions, node pulls), all hash seeds, with failing and panicking peers",
 "All tests are single-threaded, single-document and run under whatever hash seed the process draws; schedules and re-entrancy are never varied.",
 [S,D,I,L,MS,MD],
 [("all state owned by one serializer value","Serializer in "+S),("all state owned by one reader context","Context in "+D),("prefix map keyed lookup only","Serializer::prefixes in "+S)],
 ["results and bytes of each task versus its solo run"],None)

prop("C07","Lost, duplicated and reordered fragments are handled exactly",
 "Reading a typed document whose child elements or attributes arrived in another order yields the same value (lists keep their relative order); an unknown element or attribute, and text or indentation where the type has no place for text, is ignored without affecting anything else. If a single-valued field's fragment is duplicated the read is refused as a duplicate, never resolved by silently picking one. If a required fragment is lost the read is refused as missing, a lost optional fragment reads as absent, and a lost list item shortens just that list.",
 ["fault_sequences","inputs","schedules"],
 "all sequences of loss, duplication, reordering and foreign-fragment injection applied to the fragments of documents of all type shapes at any depth",
 "The tests contain a few duplicate or missing cases for a few types; every (type shape, fragment, fault sequence) combination is beyond sampling by hand.",
 [MD,I,D,A],
 [("duplicate detection","deserialize in "+I+" and "+MD),("missing value detection","Accumulate::try_done in "+L),("unknown element skipping","__Ignore branches in "+MD+", Deserializer::ignore in "+D),("field matching by namespace and name","FromXml::matches")],
 ["from_str result compared with a reference reader"],None)

prop("C08","Equivalent re-encodings by relays read as the same value",
 "A document rewritten by intermediaries into another form with the same XML meaning (namespace prefixes renamed or replaced by default declarations, declarations moved to ancestors or repeated, attribute order, quotes and spacing inside tags, self-closing against empty tag pairs, predefined, decimal or hexadecimal references, CDATA sections, empty ones included, comments, an XML declaration) reads as the same value as the original. This holds for typed reading and for generic element capture.",
 ["inputs","fault_sequences","histories"],
 "all documents of all type shapes and all chains of meaning-preserving rewrites by any number of relays",
 "The tests use the library's own output form or one hand-written variant; the space of equivalent encodings is infinite.",
 [D,MD,A,I],
 [("reference decoding","decode in "+D),("prefix and default namespace resolution","Context::element_id, Context::attribute_id, Context::lookup, Context::default_ns in "+D),("comment and CDATA handling","Context::next in "+D),("empty text synthesis","direct fields in "+MD)],
 ["from_str result before and after the relays"],None)

prop("C09","Damaged documents are refused or read literally, never reinterpreted",
 "When a document was damaged on the way, the reader either refuses it or returns precisely what the received characters say: names, resolved namespaces, attributes in order, text and nesting, and, where it is read as a type, the values that the received texts denote: a damaged number, date, address or name is never taken for another one. In particular mismatched or crossed closing tags, undeclared prefixes, malformed, unknown or out-of-range references, and document types or processing instructions inside the root element are refused. A namespace or prefix declaration is visible exactly on its own element and its descendants, the innermost one winning.",
 ["inputs","fault_sequences"],
 "all received strings reached by corruption of documents (renamed or swapped tags, moved or dropped declarations, edited references, spliced fragments), compared for the whole tree",
 "The tests cover a few wrong-namespace cases; there is no independent reader to compare with and no corruption of documents at all.",
 [D,A],
 [("close tag matching","Context::next, Deserializer::next in "+D),("prefix resolution and scope","Context::lookup, Level in "+D),("reference decoding and character validity","decode, valid_xml_character in "+D),("generic capture","AnyElement::deserialize in "+A)],
 ["AnyElement tree and node stream versus a reference tree reader"],None)

prop("C10","An abandoned or cancelled nested read never leaks into its surroundings",
 "If a consumer stops reading a nested element part-way (a user conversion that returns early, a nested reader dropped after any number of nodes, or a conversion that fails), the rest of the document is either read exactly as if the element had been consumed completely, or the read is refused with an error. In an accepted value, content of one element never shows up as content of a sibling, parent or later element, and an explicit skip always continues right after the skipped element.",
 ["schedules","histories","crash_points","inputs"],
 "all documents and all points at which each nested reader can be abandoned, skipped or fail, in any combination over the tree",
 "The tests always consume nested elements completely; the set of abandonment points is combinatorial.",
 [D,MD,A],
 [("level bookkeeping of nested readers","Deserializer::nested, Deserializer::next in "+D),("skip","Deserializer::ignore in "+D),("single-node readers","Deserializer::for_node in "+D),("post-read skip for scalars","named_field in "+MD)],
 ["node history seen by the outer reader","from_str results"],None)

prop("C11","Written names carry the right namespace in any nesting and history",
 "Whatever nesting of types with and without namespaces, declared prefixes, shared prefixes and forced prefixes is written, and whatever sequence of writer calls produced it, every element and attribute in the output resolves to the namespace and name the program asked for, and the output is well-formed. A declaration's effect ends with the element that made it, including self-closing elements. A writer call that is refused because it is out of order or names an undeclared prefix leaves no trace in the output and does not prevent a correct continuation.",
 ["programs","histories","inputs","fault_sequences"],
 "all trees of elements over types with differing default namespaces, prefix sets and prefix policies, and all histories of writer API calls including refused ones",
 "The tests pin output strings of about twenty fixed nestings; scoping bugs need particular sibling/descendant combinations, and no test makes a refused call.",
 [S,MS,I],
 [("namespace scope push and pop","Serializer::write_start, write_close, end_empty in "+S),("prefix selection","match in Serializer::write_start, write_attr in "+S),("call order state machine","State in "+S),("derived contexts","serialize_struct in "+MS)],
 ["sink bytes read by an independent strict namespace-aware checker"],None,
 [("declared prefixes and default namespace","what is in scope at the current position","Serializer fields in "+S)])

prop("C12","Failures in user-supplied conversions surface unchanged",
 "If user code called during a read or write (a custom conversion function, or a hand-written conversion of a user type) fails at any of its invocations, the whole operation fails with that very error, however deeply the failing value is nested in options, boxes, lists, enums, transparent structs or other structures. It is never swallowed, replaced by a default or turned into an absent or partial value, and user code is not invoked again after it failed. When no conversion fails, each is invoked exactly once per value.",
 ["fault_sequences","inputs","programs"],
 "every invocation of every user conversion as a fault point, over all wrappers and nestings and over reading and writing",
 "The conversion tests only use conversions that succeed; the combination of wrapper, nesting and failing invocation is not sampled at all.",
 [MD,MS,I,S,D],
 [("error propagation in derived code","? in generated bodies, "+MD+" and "+MS),("option accumulator","OptionAccumulator in "+I),("forward enums","deserialize_forward_enum in "+MD),("attribute writing","Serializer::write_attr in "+S)],
 ["error returned by from_str / to_writer","invocation log of the conversions"],None)

prop("C13","Invalid derive inputs are rejected at compile time",
 "Type definitions the library cannot support (conflicting modes, attributes on unsupported places, non-unit scalar variants, prefix or namespace misuse) are rejected with a compile error and never compile into wrong code.",
 ["programs"],"all type definitions annotated with the library's attributes",
 "The tests list a few rejected inputs.",
 [MD,MS,ML,'instant-xml-macros/src/meta.rs'],
 [("compile errors","to_compile_error calls in "+MD+" and "+MS)],["compiler output"])
prop("C14","Renaming rules map every identifier to the documented name",
 "For every identifier, each renaming rule (lower, upper, camel, Pascal, snake, kebab and their screaming forms) and explicit renames produce the documented element, attribute and variant name, the same one for reading and writing.",
 ["programs"],"all identifiers and rules",
 "The tests check a few identifiers per rule.",
 ['instant-xml-macros/src/case.rs',ML],[("case conversion","RenameRule in instant-xml-macros/src/case.rs")],["element names in output"])
prop("C15","Borrowed text points into the input whenever no decoding is needed",
 "Text that is requested as borrowed lies in the received document itself, at the very place it was received, without a copy, whenever it arrived as one piece of characters (or one CDATA section, whatever comments stand beside it) without references; otherwise it is an owned copy with the decoded value. This holds for Cow<str> fields marked borrow (in elements, lists, options, boxes and transparent structs), for the names, attribute values and texts of captured generic elements, and for what the pull reader hands out.",
 ["inputs","histories"],"all documents in all encodings, with receive buffers reused between messages",
 "The tests check a few strings; they cannot cover every place text can stand and every encoding of it.",
 [D,I],[("zero-copy decode","decode in "+D),("borrowing readers","borrow_cow_str, borrow_cow_slice_u8 in "+D)],["pointer ranges of the results","bytes allocated for large texts"])
prop("C16","Work and memory grow in proportion to the document",
 "For given types and bounded nesting, the work done and the memory moved and allocated to read, capture, pull, skip or refuse a document, and to write a value, grow in proportion to its length: a document with sixteen times as many elements, list entries, pieces of text, references or characters costs about sixteen times as much, whether it is accepted or refused and wherever it is damaged. Once a result is dropped, nothing of it stays behind: no message makes later messages more expensive or leaves memory in use.",
 ["inputs","histories","fault_sequences"],"all documents and values of which any part grows, intact or damaged, all consumers, and all histories of messages and failing sinks",
 "The tests use documents of a few hundred bytes and measure nothing; quadratic work and leaks pass them.",
 [D,S,I,'instant-xml/src/any_element.rs'],
 [("decoding in one pass","decode in "+D),("escaping in one pass","encode in "+I),("list accumulators","Vec<T> in "+I),("skipping","Deserializer::ignore in "+D)],
 ["basic blocks executed, bytes moved, compared and allocated, measured at two sizes","bytes in use between messages"],None)
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for p in P:
        assert len(p['title'])<=80,p['id']
        f.write(json.dumps(p,ensure_ascii=False)+'\n')

import json, os
P=[]
def p(id,title,st,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":"abstract state","meaning":state,"where":files[0]}]
    if observe: a["observe_at"]=[observe]
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
V="src/Variant.cc"
p("P01","Containers are shared on assignment, values are not, deep copies isolate",
 "Assigning or storing a variant that holds a list or a map makes both holders denote the same container, so a change through either is seen through both. Assigning or storing a null, boolean, number, string or blob gives an independent value that no later operation on the original can alter. A deep copy shares no list or map with its source, so nothing done to one is ever visible through the other.",
 ["histories"],"every sequence of assignments, stores into containers, mutations, clears and deep copies over any number of variables",
 "The tests check a handful of two-step aliasing scenarios; sharing bugs need particular histories (clear after share, self insertion while growing, copy of a structure whose parts are shared).",
 [V,"include/Variant/Variant.h"],[("assignment and storage sharing","VTable::Assign / Copy in src/Variant.cc"),("deep copy","Variant::Copy in src/Variant.cc")],"values and container identity of all live variables after every public call","variables, containers, which container each list/map variable denotes")
p("P02","No value changes type by itself and a refused operation changes nothing",
 "Only a null value takes on a container type as a side effect of an operation (becoming a list or a map when used as one); every other value keeps its type until something is assigned to it. An operation that does not fit the type of the value, or names an element that does not exist where one is required, throws and leaves every live value exactly as it was.",
 ["histories","inputs"],"every operation on every type of value in every reachable state",
 "The tests try single wrong-type calls; they do not compare the complete state before and after each refused call, over all type/operation pairs.",
 [V],[("per-type operation tables","VTable subclasses in src/Variant.cc"),("null promotion","Null::* in src/Variant.cc")],"type and full contents of every live variable after each call","types and contents of all variables")
p("P03","References follow their element while it lives and throw afterwards",
 "A reference obtained from a variable or element reads and writes that very variable or element for as long as it exists, and using the reference after its target is gone throws instead of touching other memory or another value. A reference to a missing element creates nothing when it is read or tested for existence (reading throws), and creates exactly the named element, with any missing parents, when it is first written. Rebinding a reference changes what it denotes and never the value it used to denote.",
 ["histories"],"every interleaving of taking references, writing through them, growing, shrinking, erasing, reassigning and destroying their targets",
 "The tests hold one reference at a time and rarely outlive the target; dangling, chained and lazily created references need long histories.",
 [V,"include/Variant/Variant.h"],[("reference validity flag","RefData / CheckRef in src/Variant.cc"),("lazy element proxies","Proxy::* in src/Variant.cc")],"result of each read or write through a reference and contents of all variables","references, what each denotes, containers")
p("P04","Lists and maps behave as sequences and ordered dictionaries",
 "Element access, insertion, replacement, removal, append, search, size, emptiness, clear and merge on a list or map have exactly the effect of the same operation on a mathematical sequence or string-keyed dictionary, with the documented conventions (storing past the end of a list pads with nulls, removing the last element of a list shortens it, removing another sets it to null). Iteration visits every element exactly once, lists in index order and maps in key order.",
 ["histories","inputs"],"every sequence of container operations with arbitrary keys, indices and values",
 "The tests use a few fixed containers; boundary indices (last, one past, far past the end), repeated removal and mixed sequences are not covered.",
 [V],[("list and map operations","List::* and Map::* in src/Variant.cc"),("iterators","Variant::Iterator family in src/Variant.cc")],"return values and container contents","contents of containers")
p("P05","Paths address exactly the element they name, as values and as strings",
 "Writing a value at a path and reading that path gives the value back, creates only the missing parents, and leaves every element not on the path unchanged; testing or reading a path never changes the structure, and removing a path removes that element and (only if asked) the parents it left empty. A path formatted as text (in the documented syntax) and parsed again is the same path, for all keys and indices (except that a final empty key has no text form, a trailing slash being ignored).",
 ["inputs","histories"],"all structures, all paths of keys and indices with any characters in keys, all sequences of path operations",
 "The tests check about ten fixed path strings; escapes, empty keys, leading escapes, index/key mixes and partially existing parents are a product space.",
 ["src/Path.cc",V,"include/Variant/Path.h"],[("path parser/formatter","src/Path.cc"),("path walk","SetPath/GetPath/ErasePath/HasPath in src/Variant.cc")],"results and structure before/after","structure being addressed")
p("P06","Equality is structural and ordering is consistent",
 "Two values compare equal exactly when they have the same structure and contents, numbers being compared by numeric value across the integer, unsigned and floating types, strings and blobs byte by byte including their lengths, lists and maps element by element. The result of a comparison is one of less (-1), equal (0) or greater (1), values of incomparable types are never equal, and for numbers, strings and blobs the order is total: antisymmetric and transitive (not-a-number excluded).",
 ["inputs"],"all pairs and triples of values",
 "The tests compare a few scalars; laws over pairs and triples, mixed numeric types at the limits, and prefixes (of strings and blobs split in different pieces) are never sampled.",
 [V,"src/Blob.cc"],[("comparison","Compare in src/Variant.cc"),("blob comparison","Blob::Compare in src/Blob.cc")],"comparison results")
p("P07","Numeric conversion and arithmetic give the exact result or refuse",
 "Reading a number as another numeric type gives the same number whenever that type can represent it (fractions are dropped towards zero for integers), and reading a string that spells a number gives that number (the nearest one for floating), while a string that does not begin with a number, or spells an integer outside the 64-bit type it is read as, is refused (narrower types and the general number reading cut what does not fit). Arithmetic on numbers gives the mathematically exact result (integer quotients truncated, operands of division being converted to the result type) whenever it is representable in the result type, integer division by zero is refused, and the result type is floating if either operand is floating, otherwise unsigned if either is unsigned, otherwise integer; arithmetic on anything else throws and changes nothing.",
 ["inputs"],"all pairs of numeric values and all operators, including limits of the 64-bit types",
 "The numerics test tries a few constants; type promotion, sign and limit cases form a product space.",
 [V],[("numeric conversion","As* in src/Variant.cc"),("promotion","NumericUpcast in src/Variant.cc")],"results of conversions and compound assignment")
p("P08","Reading JSON yields the value the text denotes or an error",
 "Every JSON text whose root is an object or array (optionally with C-style comments) is accepted and yields exactly the value it denotes: member order irrelevant with the last duplicate winning, escapes and surrogate pairs decoded to UTF-8, integers exact within 64 bits and fractions, exponents and larger integers as the nearest floating number. Text that is not such a JSON text up to the closing bracket of its root is rejected with an exception, never accepted with a wrong value and never a crash or hang.",
 ["inputs"],"all byte strings given to the JSON reader",
 "The tests parse a few dozen fixed texts; the grammar, the escapes and the nesting are unbounded.",
 ["lib/json/JSON_parser.c","src/JSONParser.cc","src/VariantParsing.cc"],[("character automaton","JSON_parser_char in lib/json/JSON_parser.c"),("event adapter","src/JSONParser.cc"),("value builder","src/VariantParsing.cc")],"value or exception")
p("P09","Written JSON is well-formed and denotes the value written",
 "For every value whose root is a list or map, the JSON text produced is well-formed JSON under every formatting parameter (compact, pretty, any indent) and denotes exactly the value written, with floating numbers recovered bit for bit and blobs recovered byte for byte when read back by the library. In strict mode a value JSON cannot represent is refused with an exception; otherwise not-a-number and infinities are written as null.",
 ["inputs","configurations"],"all list and map values of NUL-free strings, all numbers and blobs, all formatting parameters",
 "Round trips are tested for a few values and one random generator restricted to letters; buffer-boundary positions, control characters, deep nesting and formatting parameters are not.",
 ["src/JSONEmitter.cc","src/VariantEmitting.cc"],[("separator state stack and buffering","src/JSONEmitter.cc"),("value walk","src/VariantEmitting.cc")],"the emitted text and the value read back")
p("P10","Values survive a YAML round trip, plain scalars get the documented type",
 "Writing any value as YAML, under every style parameter, and reading it back gives an equal value of the same types (an integer may change between signed and unsigned): strings stay strings even when they look like numbers, booleans or null, and blobs and special floating values are preserved. A plain (unquoted) scalar is read as null, boolean, integer, unsigned or floating number when it matches that form and otherwise as the string itself, and a quoted scalar is always a string.",
 ["inputs","configurations"],"all values with printable UTF-8 strings, all style parameters, all plain scalars",
 "The random YAML test avoids digits and '~' in strings, so ambiguous strings are never exercised; style parameters are never combined.",
 ["src/YAMLEmitter.cc","src/YAMLParser.cc","src/GuessScalar.cc"],[("scalar emission","Emit in src/YAMLEmitter.cc"),("plain scalar typing","src/GuessScalar.cc")],"value read back")
p("P11","Values survive a property-list (XML) round trip",
 "Writing any value as an XML property list, pretty or compact, and reading it back gives an equal value of the same types (an integer may change between signed and unsigned), for scalars, lists and maps at the root, including strings and keys that are empty, only whitespace, or contain markup characters, blobs of any length and all finite and infinite numbers. Malformed or unbalanced XML, numeric elements without content and dicts ending after a key are rejected with an exception, never a crash.",
 ["inputs","configurations"],"all values whose strings consist of XML characters, pretty on/off and any indent",
 "The random XML test uses letters only and compares without a memory checker; whitespace, markup characters, root scalars and blobs are not sampled.",
 ["src/XMLPLISTEmitter.cc","src/XMLPLISTParser.cc","src/VariantParsing.cc"],[("element state stack","src/XMLPLISTParser.cc"),("text writer","src/XMLPLISTEmitter.cc")],"value read back")
p("P12","Headers with payload keep header and payload bytes intact",
 "Serializing a structure that carries a blob payload writes a header with the payload length, padding up to a zero byte on a 32-byte boundary, and then exactly the payload bytes; reading it back, from memory, string, file or stream, gives the same structure with the same payload and the recorded length (a payload of no bytes reads back without its data entry). A flat map of scalars and lists of non-empty scalars written as a bundle header reads back equal line for line, as far as the format can express it (texts without special characters that do not look like another type; booleans come back as 1 or 0, null as an empty text), and input that ends before the announced payload is rejected with an exception.",
 ["inputs","configurations","fault_sequences"],"all headers and payload sizes, all header formats, configured data and length locations, all truncation points",
 "The payload test uses one payload size per format; alignment cases, truncations, embedded zero bytes and configured locations are not covered.",
 ["src/Payload.cc","src/BundleHdrParser.cc","src/BundleHdrEmitter.cc"],[("framing","src/Payload.cc"),("header line parser","src/BundleHdrParser.cc"),("header line writer","src/BundleHdrEmitter.cc")],"emitted bytes, value read back")
p("P13","How input bytes are delivered never changes what is read",
 "For every format, parsing gives the same value or the same kind of failure whether the bytes come from a string, a memory block, a file or a stream, and however a stream splits them into reads, including one byte at a time. No input source is read beyond its end, and input peeked at by format guessing is not lost.",
 ["inputs","schedules"],"all documents and all ways of splitting them into short reads",
 "The tests always deliver the whole document at once; chunk boundaries inside tokens or exactly at buffer sizes are never hit.",
 ["src/ParserInput.cc","src/JSONParser.cc","src/YAMLParser.cc","src/XMLPLISTParser.cc","src/BundleHdrParser.cc","src/GuessFormat.cc"],[("buffered stream input","ParserStreamInput::GetPtr/Release in src/ParserInput.cc"),("format guess","src/GuessFormat.cc")],"value or failure; bytes obtained from an input")
p("P14","Output reaches the sink completely and in order or an error is raised",
 "For every format the bytes delivered to a string, memory block, file, stream or user-defined sink are the same, regardless of how few bytes the sink takes per write. If the sink fails or a memory block is too small, the caller gets an exception: never a silent truncation reported as success, an endless loop, a write outside the block or an aborted process.",
 ["inputs","fault_sequences"],"all documents, all sequences of partial writes, a sink failure at every point, every memory block size",
 "Tests write to sinks that accept everything; partial writes and failures at particular bytes are not exercised.",
 ["src/EmitterOutput.cc","src/JSONEmitter.cc","src/YAMLEmitter.cc","src/XMLPLISTEmitter.cc","src/BundleHdrEmitter.cc","src/VariantEmitting.cc"],[("sinks","src/EmitterOutput.cc"),("flush loops","Flush/Write in the emitters")],"bytes received by the sink, exception or return")
p("P15","Every document of a YAML stream is delivered once, with aliases resolved",
 "Iterating over a stream of YAML documents delivers exactly the documents it contains, in order, once each, and then ends; iterating again from a saved position delivers the same documents. Within a document an alias denotes the value of the most recent preceding anchor of that name (containers being shared), anchors do not leak into other documents, and an alias without an anchor is an error.",
 ["inputs","histories"],"all streams of documents, all placements of anchors and aliases, all iterator histories",
 "The tests load one three-document stream and one alias; null documents, re-used anchors, anchors on keys and iterator copies are not covered.",
 ["src/VariantParsing.cc","src/YAMLParser.cc"],[("document iterator","LoadAllIterator in src/VariantParsing.cc"),("anchor table","ParserState in src/VariantParsing.cc")],"documents delivered")
p("P16","JSON Pointer and Patch follow RFC 6901/6902 and are all-or-nothing",
 "Each pointer operation (lookup, add, remove, replace, move, copy) has exactly the effect the RFCs prescribe on objects and arrays, and fails with an exception exactly when they call for an error. Applying a patch either performs every operation and reports success, or reports failure and leaves the document exactly as it was before. The patch document itself is never changed and the patched document shares nothing with it, and copied parts are independent of their source.",
 ["inputs","histories"],"all documents, all pointers, all patches, a failure at every position of a patch",
 "The tests apply the RFC examples on objects; array removal, rollback after several array edits and independence after copy are not covered.",
 ["src/Extensions.cc","include/Variant/Extensions.h"],[("pointer walk","JSONPointerExecute in src/Extensions.cc"),("undo log","JSONPatch in src/Extensions.cc")],"document, result and patch after each call","document, undo log")
p("P17","A diff applied as a patch turns the source into the target",
 "For any two documents, the computed difference is a valid patch that applies successfully to the source and makes it equal to the target, and the difference of two equal documents is empty. Computing the difference changes neither document.",
 ["inputs"],"all pairs of documents, any key text",
 "The test uses a few pairs; arrays shrinking by several elements, type changes and keys with '/' or '~' are not sampled.",
 ["src/Extensions.cc"],[("difference","JSONDiff / FormJSONPointer in src/Extensions.cc")],"difference, patched document")
p("P18","Schema validation decides exactly JSON-schema draft-4 validity",
 "For every well-formed draft-4 schema and every data value, validation reports success exactly when the data is valid under the draft-4 meaning of the keywords used (types, enumerations, numeric, string, array and object constraints, dependencies, references, and the allOf/anyOf/oneOf/not combinators). Validation always terminates with a verdict, never crashes, and changes neither the schema nor the data; a reported error names a location that exists in the data. A schema that refers to itself without end is reported as an error. The draft-3 spellings divisibleBy and dependencies on a single key mean what they mean there; texts are checked for the formats date, time, date-time and regex. Other formats, incomplete or out-of-range dates and times, keywords beside a reference, and multiples of fractions that binary floats cannot hold are left open.",
 ["inputs"],"all combinations of keywords and data, nested to any depth below the documented recursion limit",
 "The bundled suites check each keyword alone; interactions of keywords, negative and fractional multiples, zero divisors and recursion are a product space.",
 ["src/Schema.cc"],[("keyword checks","src/Schema.cc"),("recursion limit","SchemaContext in src/Schema.cc")],"verdict, error path, inputs afterwards")
p("P19","Schema defaults fill only what is missing",
 "Adding schema defaults sets a value to the default its schema gives exactly where the data has none (absent or null), creates parents only as needed to hold such defaults, and never changes or removes a value already present. The operation is idempotent, terminates for recursive schemas, changes nothing in the schema, and the added values are independent copies of the schema's defaults. One schema for all items fills only the first item, and defaults below additional or pattern properties and below not are ignored; where a self-reference is cut off, idempotence is not promised.",
 ["inputs"],"all schemas with defaults (nested, referenced, in combinators) and all partially filled data",
 "One default test file covers simple properties; recursion, nulls, partially present objects and later mutation are not covered.",
 ["src/Schema.cc"],[("default insertion","AddSchemaDefaultsImpl in src/Schema.cc")],"data and schema afterwards")
p("P20","References and identifiers resolve by the URI rules",
 "Resolving a reference against a base gives the URI prescribed by RFC 3986 (merging, dot segments, query, fragment), except that '..' above the root of a path is kept as the library's own table has it. A schema reference finds exactly the schema registered at that URI, or the part of it named by the fragment pointer, with nested identifiers changing the base for what they enclose; a reference to nothing is reported as an error.",
 ["inputs","configurations"],"all base/reference pairs, all sets of registered schemas and identifiers",
 "A fixed resolution table is tested; combinations of dot segments, queries, empty components and nested identifiers are not.",
 ["src/SchemaLoader.cc","include/Variant/SchemaLoader.h"],[("URI resolution","ParseURI/ResolveURI in src/SchemaLoader.cc"),("schema registry","SchemaLoader::AddSchema/GetSchema in src/SchemaLoader.cc")],"resolved URIs, schemas found")
p("P21","Command lines yield the declared options or are rejected",
 "For every declaration of options and every command line, parsing returns for each option the value given by the command line, else by the environment, else by its default, converted to its declared type and combined by its action (store, constant, append, count), or it rejects the command line. It rejects exactly when an argument cannot be converted, violates a declared limit, choice, pattern or length, a required option or group is missing, mutually exclusive options are combined, or an option or positional argument is unknown, surplus or missing; each parse depends only on its own command line.",
 ["inputs","configurations","histories"],"all option declarations, command lines, environments and repeated parses",
 "The tests run one program with a handful of command lines; interactions of defaults, environment, groups, positionals and repeated parsing are combinatorial.",
 ["src/ArgParse.cc","src/ParseBool.cc","include/Variant/ArgParse.h"],[("option handling","ArgParseOptImpl::Handle/ParseArg in src/ArgParse.cc"),("positional assignment","ArgParseImpl::Parse in src/ArgParse.cc"),("groups","ArgParseGroupImpl in src/ArgParse.cc")],"result value or exit status")
p("P22","A parser's description and schema agree with what it accepts",
 "The schema generated from an option declaration accepts every result the parser returns. A parser rebuilt from the description of another behaves identically on every command line.",
 ["inputs","configurations"],"all option declarations and command lines",
 "One merge test with one fixed declaration.",
 ["src/ArgParse.cc"],[("description","GetDescription/Merge in src/ArgParse.cc"),("schema generation","GenerateSchema in src/ArgParse.cc")],"validation verdict, results of the rebuilt parser")
p("P23","Binary data is kept exactly, however it is stored or encoded",
 "Base64 encoding follows the standard alphabet with padding and decodes back to exactly the same bytes for every length, line width and division of the data into pieces, and decoding ignores line breaks and never reads outside its input. A blob reports the total length, returns its bytes unchanged, compares by content regardless of how it is divided, and releases memory it was given exactly once after its last holder is gone.",
 ["inputs","histories"],"all byte strings, all divisions into pieces, all line widths, all histories of sharing a blob",
 "The tests encode a few strings in one piece; empty pieces, splits inside a 3-byte group and line widths are not covered.",
 ["src/Base64.cc","src/Blob.cc","include/Variant/Blob.h"],[("encoder/decoder","src/Base64.cc"),("pieces","src/Blob.cc")],"encoded text, decoded bytes, number of releases")
p("P24","Flattening and recursive update preserve the data they handle",
 "Expanding a flattened structure gives back an equal structure, for every structure without empty containers whose keys are not empty and contain no delimiter, for every path delimiter with the default index marks, and a path prefix that is empty or a delimiter. Applying the recursive difference between two maps to the first gives every non-null entry of the second while keeping entries only the first has, and recursive update changes exactly the entries the update names, where a null names nothing; none of these changes its other inputs or shares containers with them.",
 ["inputs","configurations"],"all pairs of nested structures, all delimiter parameters",
 "The tests use one fixed structure with default parameters.",
 ["src/Extensions.cc"],[("flatten/expand","FlattenPathTo/ExpandPathTo in src/Extensions.cc"),("recursive diff/update","RDiff/RUpdate in src/Extensions.cc")],"results and inputs afterwards")
p("P25","Event-driven writing nests correctly for every call sequence",
 "Driving an emitter with any properly nested sequence of begin/end/scalar events, in JSON, YAML or property-list form, produces a document that denotes exactly the corresponding structure; a recorded sequence of events replays to the identical document.",
 ["histories","configurations"],"all properly nested event sequences in every format and style",
 "Tests emit events only through whole values.",
 ["src/Emitter.cc","include/Variant/Emitter.h","src/JSONEmitter.cc","src/YAMLEmitter.cc","src/XMLPLISTEmitter.cc","src/EventBuffer.cc"],[("emitter facade","src/Emitter.cc"),("format state machines","state stacks in the emitters"),("recording","src/EventBuffer.cc")],"document read back")
p("P26","Emitter settings do what they say and are told as they are",
 "Every setting an emitter of a format has (JSON: pretty, indent, strict, precision; XML property list: pretty, indent, precision; YAML: map, list and scalar style, explicit or implicit document begin and end, indent, width, precision; bundle header: precision) can be given when the emitter is created, one at a time or several at once afterwards; asked for, an emitter tells the value set last or its default, one by one and all together, and null for an unknown name. Whichever way they were given, the text written obeys them: pretty output has one element per line indented by the set amount and other output is on one line, brackets, quotes, document marks and line breaks follow the YAML styles, marks and width, a floating point number is written rounded to the set number of digits, and a strict JSON emitter refuses what JSON cannot express.",
 ["configurations","histories"],"all settings with all values, in all ways and orders of giving them, on all documents",
 "Tests write with the default settings or with pretty JSON; no test asks for a setting or changes one.",
 ["src/JSONEmitter.cc","src/YAMLEmitter.cc","src/XMLPLISTEmitter.cc","src/BundleHdrEmitter.cc","src/Emitter.cc","include/Variant/Emitter.h"],[("settings","GetParam/SetParam/GetParams/SetParams"),("layout","Indent and separators in src/JSONEmitter.cc, UpdateParams in src/XMLPLISTEmitter.cc"),("styles","YAMLEmitterImpl::Config in src/YAMLEmitter.cc")],"settings told and text written")
p("P27","A parser can be stepped, handed over, queried and reset",
 "Running a parser with handlers, in whatever steps and however handlers are pushed and popped in between or by the handlers themselves, delivers exactly the events of the documents in its input, once each and in order, every one to the handler on top of the stack at that moment. A run answers that there is more until everything has been delivered and then that it is done; it throws when the input is malformed or a handler throws. The queries (done, error, ok, error text) always tell this same state, a parser that has failed delivers nothing more and throws when run until it is reset, and after a reset it reads what follows in its input as a new parser would.",
 ["histories","inputs"],"all call histories of running, querying, pushing, popping and resetting, all reactions of handlers, all documents of every format",
 "The tests parse whole texts; no test steps a parser, changes handlers half-way, resets one or asks it about its state.",
 ["src/JSONParser.cc","src/YAMLParser.cc","src/XMLPLISTParser.cc","src/BundleHdrParser.cc","src/Parser.cc","include/Variant/Parser.h"],[("format state machines","Run in the parsers"),("handler stack","PushAction/PopAction"),("status","Done/Error/Ok/ErrorStr/Reset")],"events with the handler that received them, answers of run and queries","position in the events, handler stack, status")
p("P28","A schema violation is reported where it is",
 "Every error that validating reports names a place where the data really violates the schema: the path into the data leads to the offending value and the path into the schema to the violated keyword (and the missing or forbidden entry in it), counted from the roots, also through properties, items, patterns, dependencies, references and combinations; there is at least one error exactly when the data violates the schema. A failed anyOf or oneOf has one report for each of its alternatives, with the errors of that alternative. A keyword whose value does not have the form it needs is reported as schema error at its path in the schema where the data makes it count, and not otherwise. The flags of a result agree with its lists, the paths as text are the paths, and the printed report contains message and paths of every error, nested ones included.",
 ["inputs","configurations"],"all schemas and data, with and without violations, malformed keywords at any place",
 "Tests only ask whether validating found an error; no test looks at a path, a message, nested errors or schema errors.",
 ["src/Schema.cc","include/Variant/Schema.h"],[("paths","AutoSchemaPath/AutoDataPath and SchemaContext in src/Schema.cc"),("alternatives","ValidateOneOf/ValidateAnyOf"),("malformed schemas","AddSchemaError calls"),("text","PrettyPrintMessage, GetSchemaPathStr, GetDataPathStr")],"errors, nested errors and schema errors of a result and its printed text")
p("P29","Configuration files count as their options, help tells what is declared",
 "Loading a configuration file (JSON, YAML, property list or guessed) on a command line counts, for every value it holds at the place of a declared option, as that option given there with that value: later ones on the command line or in later files override, extend lists and add to counts, and limits reject. What names no option is passed over, a file that cannot be read rejects the command line. Asked to print the configuration, the parser ends successfully with the result as JSON text on standard output, and that text used as configuration file gives the result again. Asked for help it ends successfully after writing the program name, usage, description, every positional argument and option once with its names, argument or choices, environment variable, help text and default, in order of declaration with groups under their titles, and the epilog; advanced options and groups appear exactly in the advanced help.",
 ["inputs","configurations","histories"],"all option declarations, groups, files in every format and command lines",
 "The tests load one file with fixed content and never look at help or printed configuration.",
 ["src/ArgParse.cc","include/Variant/ArgParse.h"],[("files","MergeOptions and the config actions of Handle in src/ArgParse.cc"),("help","PrintHelp, HelpLine, MakeArgString"),("printed configuration","PrintConfig")],"result or exit status, text on the standard streams")
p("P30","The varsh program does to documents what its options say",
 "For every input document in JSON, YAML or property list format (named or guessed) and every combination of its options, varsh writes in the format asked for (JSON by default), to standard output or the file given, the document or what it holds at the acting path, for every input in order. With a value or file to set, it writes the document with exactly that place changed, making what is missing on the way; asked for the list or the length, it writes the keys in order, one on each line, or the number of elements; asked to flatten or expand, it does so first, with the delimiters given. Schemas named must all hold for the document. It ends with success if all inputs were handled; an input or file that cannot be opened or read in the format named, a place that does not exist, a schema that does not hold or contradicting options end it with failure and without output for that input or any later one.",
 ["inputs","configurations"],"all documents, formats, paths and option combinations",
 "There is no test of the program at all.",
 ["src/varsh.cc"],[("program","Process and main in src/varsh.cc")],"exit status and documents written")
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))

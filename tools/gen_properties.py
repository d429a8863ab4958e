#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it is easy to keep in step)."""
import json, os
H = "include/json_struct/json_struct.h"
D = "include/json_struct/json_struct_diff.h"
P = []
def p(id, title, statement, over, text, why, mech, files=None, observe=None, state=None):
    a = {"files": files or [H], "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("P01", "Parsing arbitrary bytes is memory-safe, defined and terminates",
  "For every byte sequence, cut into any input buffers, with every combination of relaxed-syntax switches and for every supported target type, tokenizing, typed parsing, raw capture, dynamic maps, function-call requests and reformatting return a success or an error code. They never read or write outside the supplied buffers, invoke undefined behaviour, abort or loop forever.",
  ["inputs", "configurations", "histories"],
  "all byte strings x all buffer splits x all option combinations x all target types",
  "Tests feed a few dozen well-formed documents and a handful of broken ones; a crash, overrun or hang needs a particular truncation, digit string, escape or split.",
  [("Tokenizer state machine", H+":Tokenizer::nextToken, populateNextTokenFromDataRef"), ("type handlers", H+":TypeHandler<...>::to"), ("number scanner", H+":ft::parseNumber"), ("reformat", H+":reformat")],
  observe=["return codes of nextToken/parseTo/reformat", "sanitizer reports", "progress watchdog"])

p("P02", "Valid JSON yields exactly its tokens; structural errors are rejected",
  "In the default strict mode, every RFC 8259 document whose root is an object or array is accepted and produces, in order, exactly one token per value and per container start/end, with the raw member name, the raw value text and the right kind. A document that breaks the structure of JSON (unbalanced or mismatched brackets, missing, doubled or trailing commas, missing colons, unquoted names, bare words, stray characters outside strings, truncation) is never reported as a complete document. (A comma between the last scalar element of an array and its closing bracket is the one exception: it is tolerated.)",
  ["inputs"], "all valid documents and all structurally invalid mutants of them, in one buffer",
  "Tests check a few fixed documents; structural rejection depends on the nesting context, the whitespace and the neighbouring tokens.",
  [("findStartOfNextValue/findDelimiter/findTokenEnd", H+":Tokenizer"), ("container stack", H+":Tokenizer::nextToken"), ("keyword detection", H+":Internal::getType")],
  observe=["token sequence from Tokenizer::nextToken"])

p("P03", "Tokenization does not depend on how the input is cut into buffers",
  "For every document and every way of cutting it into consecutive buffers, delivered up front, on demand through the need-more-data callback, or after the tokenizer has reported that it needs more data, the tokens (names, values, kinds) and the final status are the same as for the document in a single buffer. Each buffer is reported as released exactly once, in order, and only after it is no longer needed; typed parsing through the callback gives the same value as from a single buffer.",
  ["inputs", "histories", "schedules"], "all documents x all split points and delivery orders (splits inside names, strings, escapes, numbers, keywords, comments, around delimiters)",
  "The partial tests use eight hand-picked split points of small documents.",
  [("intermediate token", H+":Internal::IntermediateToken, populateNextTokenFromDataRef"), ("release/need-more-data callbacks", H+":Tokenizer::releaseFirstDataRef, requestMoreData"), ("escape carry-over", H+":Tokenizer::findStringEnd")],
  observe=["token sequence", "release callback order", "parseTo result"])

p("P04", "All SIMD builds behave exactly like the scalar build",
  "For every input, option combination and buffer split, the scalar, SSE2, SSE4.2 and AVX2 (and NEON) builds produce the same tokens, the same error at the same position, the same parsed values and the same serialized text.",
  ["inputs", "configurations"], "all inputs x all instruction-set builds",
  "The test binaries are compiled for one instruction set; the other code paths are never compared with it, and vector code only runs for particular lengths and alignments.",
  [("SIMD scanners", H+":Internal::findStringEndSIMD/AVX2/NEON, skipWhitespaceSIMD, findNumberEndSIMD, findAsciiEndSIMD, skipCommentSIMD, escape scanners")],
  observe=["token sequences and error codes per build"])

p("P05", "Each relaxed-syntax switch accepts its extension and nothing else",
  "Line comments, unquoted names and words, newlines instead of commas, and a trailing comma (after an object member or a nested container) are each accepted exactly when their switch is on, in every position where they may occur, and then the document yields the same tokens as its strict equivalent. With the switch off the same document is rejected, and a switch never changes how strict documents are read, except that with newlines as separators a newline directly before a comma or colon is an error.",
  ["inputs", "configurations"], "all documents x decorations x the 16 switch combinations",
  "Tests enable fixed combinations on a few documents and never check that a switch is inert on strict input.",
  [("allow_* switches", H+":Tokenizer::allowComments/allowAsciiType/allowNewLineAsTokenDelimiter/allowSuperfluousComma"), ("skipComment", H+":Tokenizer::skipComment")],
  observe=["token sequence"])

p("P06", "Every serializable value survives serialize then parse",
  "For every value of every supported type (structs with nested members, base classes, strings, booleans, all integer widths, finite floating point numbers, vectors, arrays, tuples, optional, nullable and pointer wrappers, maps, sets, enums, time points after 1973 in their representable range) and every serializer style, serializing it and parsing the text back succeeds and gives an equal value.",
  ["inputs", "configurations"], "all values of the supported types x serializer options",
  "Tests round-trip a few constants per type.",
  [("struct TypeHandler to/from", H+":TypeHandler<T>"), ("container handlers", H+":TypeHandler<std::vector>..."), ("Serializer", H+":Serializer::write")],
  observe=["parseTo(serializeStruct(x)) == x"])

p("P07", "Serialized text is valid JSON that denotes the value, in every style",
  "For every value and every serializer style (pretty or compact, any indentation) the output is a valid RFC 8259 document whose structure, names, order and values are those of the C++ value (a struct's own members in declaration order, then those of its bases, last base first); string values and map keys are always escaped. All styles of one value differ only in insignificant whitespace; the pretty style has one token to a line, indented by its depth times the indentation (raw JSON members are copied as they are).",
  ["inputs", "configurations"], "all values x all serializer options",
  "Tests compare a few outputs with literal text; hostile characters in names, empty names, nesting and option combinations are not covered.",
  [("Serializer::write", H+":Serializer"), ("string escaping", H+":Internal::handle_json_escapes_out"), ("options", H+":SerializerOptions")],
  observe=["serializeStruct output through an independent JSON parser"])

p("P08", "Serialized bytes do not depend on the output buffers",
  "For every value and every sequence of output buffers (of any sizes) supplied to the serializer directly or through its need-buffer callback, the concatenation of what was written to the buffers equals the text produced into one large buffer, and no byte is written outside a supplied buffer.",
  ["inputs", "histories"], "all values x all sequences of buffer sizes",
  "Tests always use one buffer or a growing string.",
  [("buffer hand-over", H+":Serializer::write, writeAsString, askForMoreBuffers, markCurrentSerializerBufferFull")],
  observe=["bytes in the supplied buffers"])

p("P09", "Strings are escaped and unescaped without loss",
  "Every string of Unicode text or arbitrary bytes is emitted as a JSON string that decodes to the same bytes, and every legal JSON string, using any mix of raw characters, short escapes and unicode escapes including surrogate pairs, is decoded to the right UTF-8 text, for values and for member names of maps. Malformed escapes never produce bytes taken from outside the string.",
  ["inputs"], "all strings x all legal encodings of them, at all lengths and alignments",
  "Tests use about ten strings; SIMD escape scanning depends on position and length.",
  [("handle_json_escapes_in/out", H+":Internal"), ("std::string handler", H+":TypeHandler<std::string>")],
  observe=["parsed std::string", "serialized text"])

p("P10", "Decimal text is converted to the nearest float or double",
  "Every JSON number is parsed into float as the correctly rounded value, and into double as the correctly rounded value when it has at most 19 significant digits and within one unit in the last place otherwise, including subnormals, zeros of either sign, leading and trailing zeros, huge and tiny exponents; overflow gives infinity and underflow gives zero of the right sign. Text that is not a number is rejected.",
  ["inputs"], "all JSON number texts",
  "Tests parse about twenty numbers; rounding errors need near-halfway digit strings.",
  [("parseNumber/convertToNumber", H+":Internal::ft"), ("correctly_round_float", H+":Internal::ft::correctly_round_float")],
  observe=["parsed float/double compared with strtof/strtod"])

p("P11", "Floating point values are printed so that they read back identically",
  "Every finite float and double is serialized as a valid JSON number that reads back, with this library and with any correctly rounding reader, to the identical value (including the sign of zero), using no more significant digits than the shortest correctly rounded decimal that identifies it (so at most 17 for double and 9 for float); non-finite values are serialized as null.",
  ["inputs"], "all 2^64 doubles and 2^32 floats",
  "Tests cover a handful of values.",
  [("ryu decode/convert_parsed_to_buffer", H+":Internal::ft::ryu"), ("float/double handlers", H+":TypeHandler<double>")],
  observe=["serialized text", "strtod of it"])

p("P12", "Integers are exact; out-of-range numbers saturate",
  "For every integer type of 8 to 64 bits (and 128 bits where enabled), every value is serialized as its exact decimal text and parsed back exactly, whether written plainly, quoted, or with exponent or fraction; fractions are truncated toward zero. A number outside the range of the type is parsed as the nearest representable bound, never as a wrapped or unrelated value, and malformed numbers are rejected.",
  ["inputs"], "all integer types x all number texts",
  "Tests check one large value per type.",
  [("integer::to_buffer/convert_to_integer", H+":Internal::ft::integer"), ("integer handlers", H+":TypeHandler<int...>")],
  observe=["parsed integers", "serialized text"])

p("P13", "Object members bind to struct members by name only",
  "For every struct and every object document, each member takes the value found under its name or one of its aliases (names are compared as written in the document; a member's own name wins over another member's alias), whatever the order of the members, the surrounding whitespace, the presence of unknown members of any shape, and whether the member is declared in the struct or in one of its base classes; members that are absent keep their previous value. Values of unknown members never leak into any struct member.",
  ["inputs", "programs"], "all member permutations, unknown members, aliases, nestings and base-class layouts",
  "Tests use documents in a few fixed orders.",
  [("MemberChecker/SuperClassHandler", H+":Internal::MemberChecker, SuperClassHandler"), ("skipArrayOrObject", H+":Internal::skipArrayOrObject")],
  observe=["struct contents after parseTo"])

p("P14", "Missing and unknown members are reported exactly",
  "After parsing an object, the list of missing members names exactly the document members that match no struct member, and the list of unassigned required members names exactly the required struct members the document did not provide, members of base classes as Base::name; members with optional semantics (optional wrappers, silent wrappers, unique pointers, standard optional) are never listed as required. With the strict switches off these are only reported; with a switch on, the parse fails with the corresponding error exactly when its list is non-empty.",
  ["inputs", "configurations"], "all documents x the strictness switches",
  "Tests check a few member sets.",
  [("missing_members/unassigned_required_members", H+":ParseContext, TypeHandler<T>::to, Internal::verifyMember")],
  observe=["ParseContext::missing_members, unassigned_required_members, parseTo result"])

p("P15", "A document of the wrong shape is reported, never silently misread",
  "When a value in the document has a kind its destination cannot represent (a container where a scalar is expected, a scalar or the other container where a container is expected, a non-number text for a number, a non-boolean for a boolean), parsing reports an error instead of success. Whenever parsing reports success, every destination holds the value at its place in the document.",
  ["inputs"], "all pairs of destination type and document",
  "Tests pair types with matching documents.",
  [("type handlers", H+":TypeHandler<...>::to kind checks")],
  observe=["parseTo result and contents"])

p("P16", "Optional, nullable and pointer members follow null and absence exactly",
  "For every document, a member wrapped as optional, checked optional, nullable, checked nullable, unique or shared pointer or standard optional ends in the state the document prescribes: a value sets it (and its assigned/non-null flag), null clears it where the wrapper allows null, and absence leaves it as it was without error. (The plain nullable has no flag: null leaves its value untouched.) On output, empty wrappers are written as null or left out according to the wrapper, and reading the output restores the state.",
  ["inputs", "histories", "configurations"], "all wrapper types x document states x previous states of the target",
  "Tests check single transitions from a fresh object.",
  [("wrapper handlers", H+":TypeHandler<Nullable>, <NullableChecked>, <Optional>, <OptionalChecked>, <std::optional>, <std::unique_ptr>, <std::shared_ptr>")],
  observe=["wrapper state after parseTo", "serialized members"])

p("P17", "Sequences take exactly the document's elements, in order",
  "Parsing an array into a vector, a variable-length buffer, a one-or-many value or a set replaces the previous contents with exactly the elements of the document (in order for sequences; for sets a repeated element is reported as an error). Parsing into a fixed-size array or tuple succeeds exactly when the document has that many elements, and a variable-length buffer fails exactly when the elements exceed its capacity.",
  ["inputs", "histories"], "all array documents x sequence types x previous contents",
  "Tests parse one array of matching length into fresh objects.",
  [("sequence handlers", H+":TypeHandler<std::vector>, <T[N]>, <std::array>, <Tuple>, <std::tuple>, <ArrayVariableContent>, <OneOrMany>, TypeHandlerSet")],
  observe=["container contents and parse result"])

p("P18", "Associative containers mirror the object exactly",
  "Parsing an object into an empty string-keyed map container gives exactly its (unescaped) keys with their values (into a filled one, it adds or replaces exactly these entries), and serializing such a map gives exactly one correctly escaped member per entry, for every key including the empty key and keys with quotes, backslashes or control characters. A document that is not a complete object of suitable values is reported as an error.",
  ["inputs"], "all maps and all object documents",
  "Tests use two or three plain keys.",
  [("TypeHandlerMap", H+":TypeHandlerMap::to/from")],
  observe=["container contents", "serialized text"])

p("P19", "The dynamic map behaves like the document it was parsed from, plus edits",
  "For every document and every history of lookups, iterations, typed conversions and assignments (new and existing keys, values of any type, nested containers), the dynamic map answers like a simple key-value model: lookups find exactly the current top-level members, conversions give the current value or report an error, and serializing it gives the current object.",
  ["inputs", "histories"], "all documents x all operation sequences",
  "Tests perform one or two assignments on one document; index maintenance after edits depends on the history.",
  [("Map", H+":Map::find, begin, castTo, castToType, setValue, remove/insert bookkeeping of tokens and meta")],
  observe=["Map API results", "serializeStruct(map)"])

p("P20", "Token indexes describe the token tree exactly",
  "For every valid document, the structural index computed over its tokens lists every container once, in document order, with the right position, extent, direct child count and emptiness/complexity flags, and skipping by it lands on the token after the container.",
  ["inputs"], "all valid documents",
  "Tests check three small documents.",
  [("metaForTokens", H+":metaForTokens, JsonMeta")],
  observe=["std::vector<JsonMeta>"])

p("P21", "Raw JSON members capture and re-emit exactly their part of the document",
  "For every document, members typed as raw JSON (object, array, object-or-array, each owning or referencing, and token list) capture text that denotes exactly the value at that place, leave the following members correctly parsed, and are re-emitted as the same value. Owning captures are the same however the input is cut into buffers.",
  ["inputs", "histories"], "all documents x capture types x positions x buffer splits",
  "Tests capture a few fixed sub-documents from one buffer.",
  [("copyFromValue/copyIncludingValue", H+":Tokenizer"), ("raw handlers", H+":TypeHandler<JsonObject>, <JsonArray>, <JsonObjectOrArray>, <JsonTokens>, *Ref")],
  observe=["captured text", "re-serialized text"])

p("P22", "Function-call requests run exactly the named functions",
  "For every request object, each member that names a registered function calls that function exactly once, in request order, with the parameter parsed from the document, and the reply array holds exactly the returned values in order; the execution report has one entry per request member with its name and outcome, naming unknown functions and bad parameters as errors. A failing entry affects later entries only when stop-on-error is selected.",
  ["inputs", "histories", "configurations"], "all request documents x the stop-on-error switches",
  "Tests send a few fixed requests.",
  [("callFunction", H+":CallFunctionContext, JS_FUNC_OBJ, Internal::callFunctionHandler")],
  observe=["call log", "reply text", "execution_list"])

p("P23", "Enumerations map to their names both ways",
  "Every declared enumerator is written as its name and every declared name is read back as its enumerator, exact match only; any other text, and any whole number that is not the position of a declared enumerator, is reported as an error.",
  ["inputs"], "all enumerations x all texts",
  "Tests try one unknown name.",
  [("EnumHandler", H+":EnumHandler, JS_ENUM")],
  observe=["parsed enum", "serialized text"])

p("P24", "Reformatting preserves the document and is stable",
  "Reformatting any valid document, with any output options, gives a valid document with the same structure, names, order and raw values; reformatting the result again with the same options changes nothing, and compact and pretty forms convert into each other; the pretty form has one token to a line, indented by its depth times the indentation. An invalid or truncated document is reported as an error.",
  ["inputs", "configurations"], "all documents x output options",
  "Tests reformat one document.",
  [("reformat", H+":reformat"), ("Serializer::write(Token)", H+":Serializer::write")],
  observe=["reformat output and error"])

p("P25", "Parse errors carry the right code and an excerpt of the right place",
  "Whenever tokenizing or parsing fails, the reported error code is not success, the reported error text names it, and the reported excerpt consists of text of the input at the point of failure with the marked column inside the excerpt. Reusing the context for a good document afterwards reports no stale error.",
  ["inputs", "histories"], "all failing documents (any line structure and position)",
  "Tests only check that the message is non-empty.",
  [("updateErrorContext/makeErrorString", H+":Tokenizer"), ("ErrorContext", H+":Internal::ErrorContext")],
  observe=["errorContext(), makeErrorString()"])

p("P26", "The JSON diff reports exactly the differences",
  "For every pair of object or array documents, comparing a document with itself or with a copy that differs only in whitespace or member order reports no difference; otherwise each token of the compared document is classified as equal, changed, retyped, new, or lacking items exactly as a direct comparison of the two values prescribes, and the missing members and items are exactly those of the base. Switching base or options and recomparing gives the same result as a fresh comparison.",
  ["inputs", "histories", "configurations"], "all document pairs x comparison options x rebase histories",
  "Tests compare a few fixed pairs.",
  [("diffObjects/diffArrays", D+":Internal::Diff"), ("DiffContext", D+":DiffContext::changeBase, invalidate")],
  files=[D, H], observe=["DiffTokens::diffs, missingMembers, missingArrayItems"])

p("P27", "Scopes confine reading to one value",
  "For every document, entering a scope at a token and reading or skipping to its end consumes exactly the tokens of that value (the rest of a container, nothing after a scalar), at every nesting depth and with nested scopes; afterwards reading continues with the token after the value.",
  ["inputs", "histories"], "all documents x scope entry points x nested scope histories x buffer splits",
  "Tests use one document.",
  [("pushScope/popScope/goToEndOfScope", H+":Tokenizer, Internal::ScopeCounter")],
  observe=["tokens read inside and after scopes"])

p("P28", "Parsing recorded tokens equals parsing the text",
  "For every document and target type, recording the tokens of a value first (from text held in one buffer) and then parsing from the recording gives the same result (value or failure) as parsing the original text, for whole documents and for any nested value, repeatedly.",
  ["inputs"], "all documents x target types",
  "Tests replay a few token lists.",
  [("parsed token vector", H+":Tokenizer::addData(const std::vector<Token>*), nextToken"), ("JsonTokens", H+":TypeHandler<JsonTokens>")],
  observe=["parseTo results"])

p("P29", "Every way of declaring a type or its functions means the same",
  "A struct described by any of the object declaration forms (short list of members, list of member entries, inside or outside the class, with one or several base classes at any depth, with explicit names and aliases, with one or many members) is parsed, reported and written exactly alike, and a class whose functions are described by any of the function declaration forms answers every request alike. The C++ spelling of a member does not matter where a name is given explicitly.",
  ["inputs", "configurations"], "all documents and requests x declaration forms",
  "Tests use most forms once, with one document each, and never compare them.",
  [("JS_OBJ, JS_OBJECT, *_EXT, *_EXTERNAL, *_SUPER", H+":JS_OBJECT_INTERNAL_IMPL, JS_OBJECT_EXTERNAL_INTERNAL_IMPL"), ("JS_FUNC_OBJ, JS_FUNCTION_CONTAINER and their external forms", H+":JS_FUNCTION_CONTAINER_INTERNAL_IMPL"), ("MemberChecker, SuperClassHandler", H+":Internal::MemberChecker, Internal::SuperClassHandler")],
  observe=["parseTo, missing/unassigned lists, serializeStruct, callFunctions"])

p("P30", "Relaxed documents mean their strict equivalent; relaxed output reads back",
  "A document in relaxed syntax (comments, unquoted names and string words, newline separators, trailing commas), read with the switches it needs, parses into every target type exactly like its strict equivalent, and copying its tokens to a serializer gives strict JSON with the same content. Copied without delimiters (pretty style) the text has no comma, and copied with words left unquoted exactly the unquoted names and words stay unquoted; either way the text reads back to the same tokens with the corresponding switches. (Unquoted words are strings; an enumerator has to be quoted.)",
  ["inputs", "configurations"], "all documents x relaxed decorations x output options x target types",
  "Tests parse a handful of relaxed documents and write one without delimiters.",
  [("Serializer::write(Type, DataRef), SerializerOptions::skipDelimiter, setConvertAsciiToString", H+":Serializer, SerializerOptions"), ("typed parsing with switches", H+":ParseContext::parseTo")],
  observe=["parseTo results, copied text"])

p("P31", "Separate objects do not interfere: nested, interleaved and concurrent use",
  "What a tokenizer, parse context, serializer, map, function-call context, diff context or a conversion yields (values, output, errors, error text) depends only on its own input and settings: not on what other objects of the library did before, are in the middle of in the same thread (the library being re-entered from need-more-data, release and request-buffer callbacks, user-defined type handlers and called functions, or calls on several objects interleaved), or do at the same time in other threads. An object may be used from another thread between two calls, and several threads may at once serialize, cast or index the same const object.",
  ["schedules", "histories"], "all combinations of operations nested in one thread or run in several",
  "Tests use one object at a time in one thread.",
  [("scratch buffers of the type handlers", H+":TypeHandler<std::string>::from, TypeHandler<double>::from, TypeHandlerMap"), ("per-object state", H+":Tokenizer, ParseContext, SerializerContext"), ("function tables set up on first use", H+":JS_FUNCTION_CONTAINER_INTERNAL_IMPL")],
  observe=["outcome of each operation alone and in company"])

p("P32", "Streams of documents: read one after another, each on its own, never ahead",
  "When several object or array documents follow one another in the input, with white space, (allowed) comments or nothing between them, one context or tokenizer reads them one after another: every parse takes exactly the next document, whatever the types of the targets and however the text is cut into buffers, and yields what the same document alone yields in a fresh context (result, values, member lists). The read position afterwards lies between that document and the next; a parse never asks for text beyond the buffer in which its document ends; after the last document the next parse fails, and reading goes on when a further document arrives. The same holds for a list of recorded tokens of several documents.",
  ["inputs", "histories"], "all streams of documents x deliveries x target types",
  "Tests read one stream of three small objects from one buffer.",
  [("state between documents", H+":Tokenizer::nextToken, findTokenEnd, currentPosition"), ("per-document results", H+":ParseContext::parseTo")],
  observe=["parseTo results, currentPosition, calls of the need-more-data callback"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))

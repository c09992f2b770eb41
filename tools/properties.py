import json
def P(id,title,statement,over,qt,why,files,mech,observe):
    return {"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,
     "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}}
L=[]
L.append(P("C01","Compact uncolored encoding is what encoding/json produces",
"Marshal, Append and Encoder, without colors and indentation, accept exactly the values which encoding/json accepts and produce the same bytes for each of them, with EscapeHTML on or off. The only tolerated difference is the spelling of the control characters U+0008 and U+000C (\\u0008 and \\u000c or \\b and \\f).",
["inputs","programs"],"every Go type (all kinds, struct tags, embedding, marshalers, recursive types) and every value of it, by value or by pointer",
"The tests compare a few hundred fixed values; the encoder is a run-time compiler from types to unsafe code, so every new combination of type constructors is a new program that no test has run.",
["codec.go","encode.go","json.go"],[("codec construction per type, with precedence of marshalers, embedding and tags","codec.go: constructCodec, appendStructFields, constructStructType"),("typed encoders reading through unsafe pointers","encode.go"),("entry points and codec cache","json.go: Append, encodeAny, Marshal")],
["Marshal","Append","Encoder.Encode"]))
L.append(P("C02","Indentation is what encoding/json produces, call after call",
"With any prefix and indent, MarshalIndent, Encoder.SetIndent and Append with an Indenter lay out every value exactly as encoding/json does with the same settings. The layout of a value does not depend on what the same Encoder or Indenter was used for before, including calls which failed or panicked.",
["inputs","histories"],"every value, prefix and indent string; every sequence of successful, failing and panicking calls on one Encoder or Indenter",
"Tests use two or three prefix/indent pairs on single successful calls; the layout is computed inline by nested code paths with mutable depth, one path per kind of container.",
["encode.go","json.go"],[("depth counter moved by each container encoder","encode.go: Indenter, encodeArray, encodeMap*, encodeStruct, appendRawMessageTokens"),("copy of the Indenter per call","json.go: Append")],["MarshalIndent","Encoder.SetIndent","Append with NewIndenter"]))
L.append(P("C03","Colors never change the text",
"Removing the color codes from colored output gives byte for byte the output of the same call without colors, for every value, palette, indentation and flag combination. A call fails with colors exactly if it fails without.",
["inputs","configurations"],"every value, every palette (empty, partial, full, nil), every combination of flags and indentation",
"Tests color a handful of documents with the default palette; each kind of token has its own colored code path, separate from the uncolored one.",
["jsoncolor.go","encode.go"],[("colored variants of the token writers","encode.go, jsoncolor.go: append*")],["Append","Encoder.SetColors"]))
L.append(P("C04","Every token is shown in the color of its class, and nothing else",
"In colored output each token is preceded by the color configured for its class (null, bool, number, string, key, bytes, time, text marshaler, and brackets, braces, comma, colon falling back to Punc) and followed by a reset, so that no color is active on white space, between tokens or at the end. Classes follow the Go value: byte slices, time.Time and TextMarshaler values have their own colors, tokens inside a RawMessage or the output of a Marshaler are colored by their JSON kind. DefaultColors gives every caller a palette of its own.",
["inputs","configurations"],"every value and every palette",
"Tests compare a few golden strings; which color a token gets depends on the codec chosen for its Go type and on the path that reaches it (field, map, interface, raw message, string option).",
["jsoncolor.go","encode.go","codec.go"],[("choice of color per token class","jsoncolor.go: puncColor, append*; encode.go: encodeString, encodeKey, encodeBytes, encodeTime, encodeTextMarshaler, appendRawMessageScalar")],["Append","Encoder.SetColors"]))
L.append(P("C05","Raw messages and marshaler output are re-encoded faithfully",
"The JSON of a RawMessage or returned by a Marshaler appears in the output with the same tokens in the same order, compacted or indented and escaped as encoding/json does, and anything which is not exactly one valid JSON value is refused. With TrustRawMessage valid messages come out the same, and an invalid one never panics and never disturbs the layout or colors of what follows.",
["inputs"],"every byte string as raw JSON, at every position in a value, with every flag, indent and palette",
"The tests use a dozen well-formed messages; the message is re-tokenized and re-laid out by code of its own that must agree with the tokenizer and the indenter on every input.",
["encode.go","token.go","parse.go"],[("re-encoding by tokens","encode.go: encodeRawMessage, appendRawMessageTokens, appendRawMessageVerbatim, appendCompactEscapeHTML"),("Marshaler output","encode.go: encodeJSONMarshaler")],["Append","Encoder.Encode","Marshal"]))
L.append(P("C06","An Encoder writes each document whole, once, or reports the failure",
"Each successful Encode passes the complete document and one newline to the writer in one Write, and a failed or panicking one writes nothing of the value. An error of the writer is returned by that Encode and by every later one, and no Encode that fails or panics affects what later ones write.",
["fault_sequences","histories"],"every sequence of Encode calls with good, unencodable and panicking values and a writer failing or re-entering the package at any point",
"Tests write to a bytes.Buffer, which never fails and never re-enters; buffers are pooled and shared between all encoders of the process.",
["json.go"],[("pooled buffers","json.go: encoderBufferPool, Encoder.Encode"),("sticky error","json.go: Encoder.err")],["Encoder.Encode with a monitoring io.Writer"]))
L.append(P("C07","Encoding has no side effects and always gives the same result",
"Encoding the same value again gives the same bytes (up to the order of map members when sorting is off), whatever the destination's length, capacity and content, and whatever was encoded before. Append leaves the bytes already in the destination as they are, nothing that was returned earlier changes later, and the value that is encoded is never modified.",
["inputs","histories"],"every value, destination slice and sequence of calls",
"Tests append to nil or fresh slices; in-place tricks (pooled buffers, scratch space at the end of the destination, map element pooling) only go wrong for particular lengths, capacities and histories.",
["encode.go","json.go","codec.go"],[("scratch use of the destination","encode.go: encodeToString, doEncodeBytes, encodeArray error paths"),("pools","encode.go: mapslicePool; json.go: encoderBufferPool")],["Append","Marshal","Encoder.Encode"]))
L.append(P("C08","Exactly RFC 8259 JSON is accepted",
"Valid, Unmarshal, Parse and Decoder accept a byte string as JSON exactly if it conforms to RFC 8259 (as encoding/json does), whatever the target type, also in parts of the input which are skipped rather than stored. No input makes them panic, and Parse returns exactly the unread rest of its input.",
["inputs"],"every byte string, every target type",
"Tests list some hundred literals; hand-written scanners for strings, numbers, white space and containers have separate fast paths and there are several of them (skip, decode to interface, decode to type).",
["parse.go","decode.go","json.go"],[("scanners","parse.go: parseValue, parseNumber, parseStringFast, parseObject, skipSpaces"),("typed decoders with scanners of their own","decode.go: decodeSlice, decodeMap, decodeStruct, decodeInterface")],["Valid","Unmarshal","Parse","Decoder.Decode","Compact","Indent"]))
L.append(P("C09","Decoding stores the Go value that encoding/json stores",
"Unmarshal accepts a document for a target exactly if encoding/json does, and leaves an equal Go value in it, also when the target already holds data, shares memory or contains interfaces, pointers and maps to reuse. Accepted differences: time.Duration also accepts strings, and null into a pointer to a pointer clears only the inner pointer, as the tests require.",
["inputs","programs"],"every target type, every previous content, every document",
"Tests decode some hundred fixed documents, mostly into zero values; the decoder is compiled per type with unsafe stores, and merging with existing content multiplies the cases.",
["decode.go","codec.go","parse.go"],[("typed decoders","decode.go"),("field matching","codec.go, decode.go: decodeStruct, ascii.go")],["Unmarshal"]))
L.append(P("C10","Decoding options do what they say, and only that",
"UseNumber, DisallowUnknownFields, DontMatchCaseInsensitiveStructFields and the zero-copy flags, alone or combined, through Parse or Decoder, change only what their documentation says: numbers in interfaces become Number, unknown fields are refused, fields match by exact name only. The zero-copy flags never change the decoded value.",
["inputs","configurations"],"every combination of flags, document and target type",
"Tests set one flag at a time on a few documents; flags are consulted separately in every decoder and must reach values nested in interfaces, maps and arrays.",
["decode.go","json.go"],[("flags of the decoder","decode.go: decodeStruct, decodeInterface, decodeString, decodeNumber, decodeRawMessage")],["Parse","Decoder"]))
L.append(P("C11","Decoded values own their memory unless zero-copy was asked for",
"Without zero-copy flags, nothing that was decoded changes when the input buffer is overwritten or when a Decoder reads on. With one of the flags only values of the kind it names may refer to the input, and the input itself is never modified.",
["inputs","histories"],"every document, target type and flag combination, every later use of the input buffer",
"Tests compare values right after decoding, when aliasing is invisible.",
["decode.go","parse.go","json.go"],[("copying of strings, numbers and raw messages","decode.go: decodeString, decodeNumber, decodeRawMessage, decodeFromString, decodeMap*"),("buffer reuse by the stream decoder","json.go: Decoder.readValue")],["Unmarshal","Parse","Decoder.Decode"]))
L.append(P("C12","A stream decodes the same however it arrives",
"A Decoder yields the same sequence of values and errors as encoding/json does on the same stream, however the reader splits it, and returns a value as soon as its last byte has arrived. Errors of the reader are returned after all values before them; after each value InputOffset lies between its end and the next token, and Buffered followed by the rest of the reader is what remains of the stream from there.",
["schedules","inputs","fault_sequences"],"every stream of values, every partition into reads (empty reads, data together with an error), every point of failure",
"Tests feed complete buffers or single-byte readers; splits inside escapes, numbers, literals and at the limits of the 32 KiB buffer are not sampled.",
["json.go","parse.go"],[("refill and rescan","json.go: Decoder.readValue"),("incomplete input detection","parse.go: unexpectedEOF")],["Decoder.Decode","Decoder.Buffered","Decoder.InputOffset"]))
L.append(P("C13","The Tokenizer reports every token exactly",
"For every JSON document the Tokenizer yields exactly its tokens in order, each with the bytes it has in the input, the right delimiter, depth, index and key mark; RawValue tells the kind and content of each. For input which is no JSON it ends, does not panic and stays within the input.",
["inputs","histories"],"every byte string; every sequence of Next and Reset",
"Tests compare token lists of a dozen small documents.",
["token.go","parse.go"],[("state stack","token.go: Tokenizer.Next, state, pools"),("classification","token.go: RawValue")],["Tokenizer.Next","Tokenizer.Reset","RawValue"]))
L.append(P("C14","Concurrent use is free of races and gives the sequential results",
"Goroutines which encode and decode at the same time, including the first use of new and recursive types, with shared values, palettes and Indenters, never race and each gets the result it would get alone.",
["schedules"],"every interleaving of encoding and decoding calls on any types",
"Tests are sequential; the codec cache is replaced without locks and its entries are built lazily, buffers and map elements are pooled.",
["codec.go","json.go","encode.go"],[("lock-free codec cache","codec.go: cacheLoad, cacheStore, constructCachedCodec"),("pools","json.go: encoderBufferPool; encode.go: mapslicePool; token.go: stack pool")],["Marshal","Unmarshal","Append","Parse","Tokenizer"]))
L.append(P("C15","Unsafe code stays within the memory of the values it handles",
"Encoding and decoding never read or write outside of the value, the target and the input buffer, whatever the type's memory layout, and leave only valid pointers which keep what they refer to alive.",
["inputs","programs"],"every type layout (pointer-shaped values, one-element arrays, embedded pointers, arrays and slices of every element size), value and document",
"A stray access is invisible to a test that compares output; it needs checkptr, AddressSanitizer, guard pages, canaries and a hostile garbage collector to be seen.",
["codec.go","encode.go","decode.go","parse.go","reflect.go","reflect_optimize.go"],[("unsafe field, element and interface access","codec.go, encode.go, decode.go"),("growth of slices","decode.go: decodeSlice, reflect.go")],["all entry points under checkptr, -asan and GODEBUG=clobberfree"]))
L.append(P("C16","What is encoded decodes to the same value",
"Decoding the encoding of a value gives a value which encodes to the same bytes again, and which is equal to the original for types without lossy features; every finite float and every integer survives exactly. Indentation, escaping options and the removal of colors make no difference.",
["inputs"],"every value of types that can be decoded, every output option",
"Tests round-trip a few fixed values; exactness at the limits of numbers, strings and escapes is a statement about all of them.",
["encode.go","decode.go","parse.go"],[("number formatting and parsing","encode.go: encodeFloat; parse.go: parseInt, parseUint; decode.go: decodeFloat64"),("string escaping and unescaping","encode.go: doEncodeString; parse.go: parseStringUnquote")],["Marshal and Unmarshal","Encoder and Decoder"]))
L.append(P("C17","Deep and cyclic data give errors or results, never a crash",
"Values which contain themselves are refused with an error, documents nested deeper than 10000 levels never exhaust the stack, and values and documents which are deep or long but within limits are handled like encoding/json does. Shared but acyclic values are encoded in full.",
["inputs"],"every nesting depth and every pointer graph, through every entry point",
"Tests do not nest beyond a few levels; a stack overflow kills the process and cannot be recovered.",
["parse.go","decode.go","encode.go","codec.go"],[("depth limit","parse.go: parseNestedValue; decode.go: decoder.depth"),("cycle detection","codec.go: encoder.enter, leave")],["Valid","Unmarshal","Decoder","Marshal","Tokenizer"]))
L.append(P("C18","IsColorTerminal follows its policy",
"IsColorTerminal is false whenever NO_COLOR is set to a non-empty value, whatever else is set; otherwise true whenever FORCE_COLOR is set to a non-empty value, for any writer at all; otherwise false for TERM=dumb, for nil and for every writer that is not an open terminal file, and true for a terminal.",
["configurations"],"every combination of the environment variables and kind of writer (nil, buffer, file, pipe, closed file, pseudo-terminal)",
"The tests run without a terminal and so can only see false.",
["terminal.go"],[("environment and terminal checks","terminal.go: IsColorTerminal")],["IsColorTerminal on a pseudo-terminal"]))
L.append(P("C19","The jc program prints its input's value faithfully or fails",
"jc prints the JSON it is given, from standard input or a file, with the content that encoding/json reads in it (of repeated keys the last one) whatever the color and indentation options, to standard output or to the output file, without color codes where no color is due. On invalid input, flags or files it exits with a nonzero status, says why on standard error and prints no document.",
["inputs","configurations","fault_sequences"],"every input document, every combination of flags, every kind of output, every failing file",
"There are no tests of the program.",
["cmd/jc/main.go"],[("flags and pipeline","cmd/jc/main.go: doMain, parseFlags, encode")],["the jc executable run as a process"]))
L.append(P("C20","fatih/color palettes convert exactly",
"A fatih/color Color converts to exactly the escape sequence that it writes before text, and a palette converts field by field; nil colors and palettes mean no color. The result does not depend on whether color output is currently enabled, does not change that setting and shares no memory with its source.",
["inputs","configurations"],"every combination of attributes, every palette, color output enabled or disabled",
"The tests convert one palette.",
["helper/fatihcolor/fatihcolor.go"],[("extraction of the prefix","helper/fatihcolor/fatihcolor.go: ToCoreColor, ToCoreColors")],["ToCoreColor","ToCoreColors","DefaultColors"]))
L.append(P("C21","Output is always safe, valid JSON",
"Whatever the strings in a value contain, the output is one valid JSON document in valid UTF-8 with no raw control character, so that text can neither break out of its string nor inject terminal sequences, and with no U+2028 or U+2029. With EscapeHTML it contains none of the characters <, > and &. Only bytes supplied as JSON by a RawMessage or Marshaler are passed on as they are where JSON permits them.",
["inputs"],"every string in every position (values, keys, field names, text marshalers, raw messages and marshaler output with EscapeHTML), every flag and palette",
"Tests contain a few special characters; escaping is done in several places for values, keys, field names, text and raw messages.",
["encode.go","codec.go"],[("escaping","encode.go: doEncodeString, appendCompactEscapeHTML; codec.go: field names precomputed for both modes")],["Append","Marshal","Encoder"]))
L.append(P("C22","Errors are of the types encoding/json documents",
"When encoding or decoding fails for one reason the error is of the type that encoding/json reports for it (SyntaxError, UnmarshalTypeError, InvalidUnmarshalError, MarshalerError, UnsupportedTypeError, UnsupportedValueError, io.EOF, io.ErrUnexpectedEOF), an invalid RawMessage being reported as an UnsupportedValueError and an invalid Number as a SyntaxError; Unmarshal reports invalid JSON as a SyntaxError whatever else is wrong. An UnmarshalTypeError names a Go type of the kind that could not take the value. Errors of user methods, readers and writers can be found by unwrapping. An error is never reported for a call that did all it was asked for, and never swallowed.",
["inputs"],"every failing value and document",
"Tests look at a few dozen errors; programs dispatch on the type of error for inputs no test has seen.",
["decode.go","encode.go","parse.go","json.go"],[("construction and replacement of errors","parse.go: syntaxError, unexpectedEOF, unmarshalTypeError; decode.go; json.go: Unmarshal")],["errors returned by Marshal, Unmarshal, Decoder.Decode, Encoder.Encode"]))
L.append(P("C23","Each Encoder option has its effect from the next call on, and no other",
"Whatever options were set before and in whatever order, an Encode call behaves as on a new Encoder with the options now in force. Switching off the sorting of map keys only reorders members of maps, and each option leaves the effects of the others alone.",
["histories","configurations"],"every sequence of option changes and Encode calls",
"Tests set options once before one call; options are bits in shared state and are consulted in many code paths.",
["json.go","encode.go"],[("flag bits","json.go: SetEscapeHTML, SetIndent, SetSortMapKeys, SetTrustRawMessage, SetColors")],["Encoder"]))
L.append(P("C24","Results do not depend on which types were used before",
"What a value encodes to and what a document decodes to is the same whatever types the process has encoded or decoded before and in which order, for all types and in particular for types which contain or embed each other.",
["histories","programs"],"every order of first use of any set of types",
"Tests run in one fixed order; codecs are built lazily and cached, and those of types which contain each other are built together, so a result can depend on which was asked for first.",
["codec.go"],[("codec cache and construction of recursive types","codec.go: constructCachedCodec, cacheStore, constructCodec, structs seen so far")],["digests of the same cases run in different orders in separate processes"]))
L.append(P("C25","Cost stays in proportion to the data",
"The memory and processor time that encoding, decoding, validating or tokenizing takes is within a constant factor of what encoding/json takes and proportional to the size of the document or value, whatever the document consists of, however deeply it is nested and in whatever pieces a stream arrives, also when the call fails (except that an error which names a field may take time quadratic to the depth of that). Between calls nothing is retained of what was encoded or decoded; only codecs, of which there is one per type, and reusable buffers remain.",
["inputs","histories"],"every value, document and split of a stream into reads",
"Tests use small documents, for which a wrong order of growth costs nothing; benchmarks measure a few ordinary documents and decide nothing.",
["decode.go","encode.go","parse.go","json.go","token.go"],[("growth of slices, maps and buffers","decode.go: decodeSlice, decodeMapStringInterface, decodeMapStringRawMessage; encode.go: doEncodeBytes; json.go: Decoder.readValue, encoderBufferPool"),("scanning strings, unknown members and values received in part","parse.go; json.go: valueEnd"),("tokens and their stack","token.go: Tokenizer.Next, push")],["runtime.MemStats and getrusage around each call of Append, Parse, Encoder, Decoder, Valid, Tokenizer"]))
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p,ensure_ascii=False)+"\n" for p in L))
import re
for p in L:
    assert len(p['title'])<=80,(p['id'],len(p['title']))

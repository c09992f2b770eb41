#!/usr/bin/env python3
"""Writes known_findings.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = """
C15 60c3540 types stored directly in an interface word (single-pointer structs, arrays, maps in structs) were taken for pointers to their data: crash or wrong memory
C01 0d304ed map keys of TextMarshaler, integer and string kinds encoded, sorted and decoded unlike encoding/json
C24 e8e1cc4 codecs of recursive, embedded and marshaler types depended on construction order; precedence, ,string, omitzero and folding differed from encoding/json
C06 22d70f9 Encoder.Encode returned nil for the call whose write failed
C01 560abf4 Number with trailing garbage was written as is
C04 9b47d8e a nil byte slice was written with the codes of bytes around those of null
C01 1eb8bd5 time outside of RFC 3339 was written instead of refused
C02 e556359 struct with all fields omitted was indented as { newline }
C05 c5af4fa invalid RawMessage in an unsorted map was not reported
C02 b9bf1b1 depth of a failed call was kept in the Indenter for the next one
C05 75c4d81 RawMessage with white space around was refused and trailing data accepted
C22 f123e48 errors of marshalers and of their output were not MarshalerErrors
C17 a22c00a values that contain themselves overflowed the stack
C09 fc15176 arrays: commas between excess elements, missing elements not zeroed
C09 0327a88 Number was not decoded from a string
C09 731b085 null was not passed to UnmarshalJSON of values that are not pointers
C09 24b2771 null into slices and maps with UnmarshalText
C09 f71042a times decoded unlike encoding/json
C09 33e9c40 nil pointer found in an interface was dereferenced
C09 d7e7de9 null refused for types that cannot be decoded
C09 ad7f7fc elements of a previous slice showed up again after an empty array
C08 2cb42bb white space after a value in a string (,string) accepted
C13 2b7136f tokens after }, stray commas (panic) and unbalanced delimiters
C19 19db3c1 jc wrote color codes to the output file
C17 019226e documents nested too deeply overflowed the stack
C08 d0a8e7b syntax errors after a type error not reported, refused values not consumed by Parse
C12 8aadf65 numbers and escapes split between reads were decoded in part or refused
C12 676431a Decoder waited for its buffer to fill and replaced errors of the reader
C17 e8fef9d a target interface which points to itself was left as it was
C12 d457c3b an error of the reader which wraps io.EOF was taken for the end of the input: a cut-off value was reported as io.ErrUnexpectedEOF and a cut-off number returned as if complete
C22 36eb645 values that do not fit a time.Duration gave an UnmarshalTypeError which named int32
C12 661d668 an invalid character in a string or literal at the end of the stream was reported as a missing end
C25 c010fa5 each decoded map[string]interface{} and map[string]RawMessage took 5 KB, so that a document of 600 KB could take 1 GB
C25 fb5a06d a value received in small pieces was parsed anew after each of them, which took a time quadratic to its length
C25 87e2d4b a deeply nested document took a time proportional to depth x length: seconds for 300 KB
"""
fixed = []
for l in F.strip().split("\n"):
    p, c, w = l.split(" ", 2)
    fixed.append("fixed: property=%s %s %s" % (p, c, w))
json.dump({"findings": [], "fixed": fixed}, open(os.path.join(V, "known_findings.json"), "w"), indent=1)

#!/usr/bin/env python3
"""Writes known_findings.txt: the recorded (unrepaired) findings and one line per repair commit in /repo."""
import os, subprocess
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
KNOWN = [
 ("P15", "container-for-string", 'a JSON object or array given for a std::string member is accepted and stored as "{" or "[" (TypeHandler<std::string>::to) instead of being reported; existing tests (call_json_wrong_arg_type*) rely on it'),
]
FIX = {  # subject of the commit -> property, what failed
 "keep what is written to a SerializerContext": ("P08", "text written to a SerializerContext after flush() was lost"),
 "reject bare words in arrays unless": ("P02", "[word] was accepted in strict mode"),
 "reject stray . _": ("P02", "stray characters such as [.] or {\"a\":/} were accepted"),
 "keep a member name when the buffer ends": ("P03", "the member name was lost when a buffer ended between name and value"),
 "do not use the SIMD string scanner": ("P03", "an escape at a buffer end was forgotten when the next buffer was scanned with SIMD"),
 "keep the state of a // comment": ("P03", "a // comment cut by a buffer boundary was read as data"),
 "reject containers without a member name": ("P02", "{{}} and {[]} were accepted"),
 "reject a closing bracket in place": ("P02", "{\"a\":} and {\"a\":]} were accepted"),
 "escape all control characters": ("P09", "control characters below 0x20 were written raw"),
 "stop parsing a map when": ("P18", "a truncated object looped forever or was accepted by map destinations"),
 "escape the keys of serialized maps": ("P18", "map keys with quotes or backslashes gave invalid JSON"),
 "write empty member names": ("P07", "the empty key was written without a name"),
 "serialize documents nested more": ("P07", "depth counter of the serializer wrapped at 256"),
 "count scope depth beyond": ("P27", "scope depth counter wrapped at 65536"),
 "report truncated documents in reformat": ("P24", "reformat returned success for truncated documents"),
 "set the size of a completely filled": ("P17", "a full ArrayVariableContent reported a wrong size"),
 "replace previous contents when parsing a scalar": ("P17", "OneOrMany and token vectors appended to previous contents"),
 "raw captures replace previous contents": ("P21", "raw captures appended to previous contents and kept a dangling copy buffer"),
 "keep the magnitude of numbers": ("P10", "numbers with leading zeros or more digits than the significand lost magnitude"),
 "saturate integers that are out of range": ("P12", "out-of-range integers wrapped"),
 "round to the nearest float": ("P10", "wrong rounding at the underflow and overflow thresholds of float"),
 "print floating point numbers with": ("P11", "some values were printed with more digits than needed"),
 "reject times in nanoseconds": ("P15", "a time in nanoseconds beyond the last representable instant was accepted and wrapped to a time before 1970"),
 "reject times that do not fit": ("P01", "signed overflow for times out of range of the time point"),
 "reject numbers that are not enumerators": ("P23", "any number was accepted for an enum"),
 "do not compute with uninitialized digits": ("P01", "uninitialized bytes were used for a malformed low surrogate"),
 "do not misread the members after a container": ("P15", "after a container read into a std::string its members were taken for members of the enclosing object"),
 "forget the state of the previous input": ("P25", "errors and scopes of the previous input were kept after resetData"),
 "do not iterate past the members": ("P19", "iterating a Map could run past its members"),
 "report failed conversions of a Map": ("P19", "a failed conversion of a Map member was not reported in the parse context"),
 "escape and unescape the member names": ("P19", "Map member names with escapes were not found or written raw"),
 "keep the index of a Map in step": ("P19", "the index of a Map went stale after setting a member"),
 "refuse to set a member of a Map": ("P19", "setting a member on a non-object Map corrupted it"),
 "do not keep the previous content of a Map": ("P19", "parsing into a Map again kept old members"),
 "copy objects and arrays that are read": ("P28", "raw captures of recorded tokens took text between unrelated buffers"),
 "write recorded tokens under the name": ("P21", "token captures were written under the name they were read with, not the member's"),
 "do not report the custom message": ("P25", "the custom message of an earlier error was reported again"),
 "do not call functions named inside": ("P22", "members of a malformed parameter were taken for function names"),
 "allow leaving a scope that could not": ("P01", "an assertion failed when a scope was left after a tokenizer error"),
 "keep a leading underscore in the names": ("P23", "enumerators with a leading underscore lost it"),
 "show the text at the failing place": ("P25", "excerpts lacked the failing text, were repeated, marked columns outside the line, or read outside the recorded tokens"),
 "report only the members of the latest": ("P25", "missing and unassigned members of earlier parses were reported again"),
 "count the tokens of nested scopes": ("P27", "leaving a nested scope of the same kind let the outer scope read past its end"),
 "do not read past the end of an empty": ("P28", "an empty token recording was read out of bounds"),
 "write compact output when the style": ("P24", "SerializerOptions::setStyle(Compact) still wrote line breaks"),
 "mark all items of a new array": ("P26", "only the first item of a new array that starts with a container was marked as new"),
 "forget the missing array items when": ("P26", "missing array items of earlier comparisons were reported again"),
 "compare numbers outside the range": ("P26", "comparing a number out of the range of double threw, and equal huge numbers differed"),
 "mark the whole array item when its type": ("P26", "the inner tokens of a retyped array item were reported as unchanged"),
 "report the error of the new base": ("P26", "DiffContext::reset reported success for a base that does not parse"),
 "give an error text also when members": ("P25", "the error text was empty when member tracking was off"),
 "refuse to record a lone end": ("P01", "an assertion failed (out-of-bounds read in release builds) when a map was read where a container ends"),
}
if os.path.exists(os.path.join(R, "tools", "fixes_extra.py")):
    exec(open(os.path.join(R, "tools", "fixes_extra.py")).read())
out = []
for p, k, t in KNOWN:
    out.append("known: property=%s key=%s %s" % (p, k, t))
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True)
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    m = [v for k, v in FIX.items() if k in s]
    assert len(m) == 1, (l, m)
    out.append("fixed: property=%s %s %s" % (m[0][0], h, m[0][1]))
open(os.path.join(R, "known_findings.txt"), "w").write("\n".join(out) + "\n")
print(len(out))

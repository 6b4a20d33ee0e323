#!/usr/bin/env python3
"""Source of properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
ALL = ["src/lib.rs", "src/utf8.rs", "src/utf16_be.rs", "src/utf16_le.rs", "src/utf32_be.rs", "src/utf32_le.rs",
       "src/big5_whatwg.rs", "src/shiftjis_whatwg.rs", "src/single_byte.rs"]
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
IO = [("input_i", "input bytes consumed so far", "each encode_from_str / decode_to_str"),
      ("output_i", "output bytes written so far", "each encode_from_str / decode_to_str")]

p("C01", "Every call returns: no panic, abort, overflow or endless loop",
  "Every encode and decode call, in every one of the 38 encodings, returns a success or an error value for every input, every output buffer length including zero, and either end-of-input flag. It never panics, aborts, overflows arithmetic, or fails to terminate.",
  ["inputs", "configurations"], "all encodings x all inputs (valid or not) x all output buffer lengths x both end flags, in checked and unchecked builds",
  "The tests call each decoder on 512 random byte strings with one 4 KiB buffer; random bytes hit an error almost at once, so later states, tight buffers, long inputs and rare byte pairs are hardly reached.",
  ALL, [("bounds tests before every indexed write", "each encode_from_str / decode_to_str"), ("consumed-count fix-up to a char boundary", "end of each encode_from_str"), ("table index range test before lookup", "big5_whatwg.rs, shiftjis_whatwg.rs decode_to_str")],
  ["return or unwind of each call", "process exit status", "CPU time of the call"], IO)
p("C02", "Calls stay in their buffers and decoded text is valid UTF-8",
  "A call reads only the caller's input and writes only inside the caller's output buffer, with no undefined behaviour. A returned slice is the leading part of that buffer, every reported count and range lies within the input and the buffer, and the text a decoder returns, like the bytes it reports as written at an error, is always valid UTF-8.",
  ["inputs", "configurations"], "all encodings x all inputs x all buffer lengths and alignments x both end flags",
  "The library builds its text with unchecked conversions, so a wrong value is undefined behaviour that the tests can only see as a wrong string on the few inputs they try; none runs under a sanitizer.",
  ALL, [("from_utf8_unchecked over bytes written by char::encode_utf8 or copied from validated input", "end of each decode_to_str"), ("from_u32_unchecked after surrogate tests", "utf16_be.rs, utf16_le.rs decode_to_str")],
  ["returned pointer, length and bytes", "guard bytes around the buffers", "AddressSanitizer, MemorySanitizer and Miri reports"], IO)
p("C03", "Single-byte encodings follow their published tables exactly",
  "Each of the 31 single-byte encodings maps bytes and characters exactly as its published mapping: every defined byte decodes to its one character, that character encodes back to that byte, and bytes 0 to 127 are ASCII. Every undefined byte is a decode error and every character outside the mapping is an encode error, wherever in the text it occurs.",
  ["inputs"], "all 31 encodings x all 256 bytes x all Unicode scalar values, at every position and in every context",
  "The table tests exercise iso-8859-7 plus ASCII and a random text or byte string per encoding; no test compares the other 29 tables with anything.",
  ["src/single_byte.rs", "src/generated/single_byte"], [("binary search in the sorted encode table", "single_byte.rs ascii_ext_encode_from_str"), ("128-entry decode table with a replacement-character hole marker", "single_byte.rs ascii_ext_decode_to_str")],
  ["result of each call against an independently derived mapping"])
p("C04", "UTF-8 passes through unchanged and only well-formed UTF-8 is accepted",
  "Encoding to and decoding from UTF-8 copies text unchanged. Decoding accepts exactly the well-formed byte sequences: overlong forms, surrogates, values above U+10FFFF, stray continuation bytes, impossible bytes and truncated sequences are errors at the place they occur, and no valid character before or after them is lost or altered.",
  ["inputs"], "all byte strings and all texts, all buffer lengths, both end flags",
  "About thirty fixed strings and 512 random ones; ill-formed sequences near the end of the data, and their combinations with tight buffers, are sampled only once or twice.",
  ["src/utf8.rs"], [("core::str::from_utf8 validation", "utf8.rs decode_to_str"), ("copy length rounded down to a char boundary", "utf8.rs copy_len")],
  ["result of each call against a model of Unicode table 3-7"])
p("C05", "UTF-16 encodes and decodes by the standard in both byte orders",
  "UTF-16, in both byte orders and with no byte order mark added or removed, encodes each character below U+10000 as one code unit and every other as a surrogate pair. Decoding accepts exactly those sequences and reports every unpaired surrogate as an error, for all characters in any context.",
  ["inputs"], "all Unicode scalar values and all sequences of 16-bit units, both byte orders, all buffer lengths, both end flags",
  "Fixed strings over two scripts and one emoji block, and 512 random texts; the 1024 x 65536 pairs a surrogate can form are not enumerated.",
  ["src/utf16_be.rs", "src/utf16_le.rs"], [("surrogate arithmetic and range tests", "utf16_*.rs encode_from_str, decode_to_str")], ["result of each call against a model of UTF-16"])
p("C06", "UTF-32 encodes and decodes by the standard in both byte orders",
  "UTF-32, in both byte orders and with no byte order mark added or removed, encodes every character as its four-byte code point. Decoding accepts exactly the Unicode scalar values and reports surrogates and anything above U+10FFFF as an error of that one unit, for all values in any context.",
  ["inputs"], "all 2^32 unit values in both byte orders, all buffer lengths, both end flags",
  "Fixed strings and 512 random texts; random bytes are almost never a valid unit, so decoding past the first unit is hardly tested.",
  ["src/utf32_be.rs", "src/utf32_le.rs"], [("char::from_u32 as the validity test", "utf32_*.rs decode_to_str")], ["result of each call against a model of UTF-32"])
p("C07", "Big5 follows the WHATWG index, including its combining sequences",
  "Decoding Big5 maps ASCII to itself, each two-byte code of the WHATWG index to its character, the four codes of E or e with circumflex plus macron or caron to a two-character sequence, and treats everything else as an error. Encoding uses, for a character listed more than once, the code the WHATWG standard picks (a standard-range code over a Hong Kong extension code; the last one for the six box-drawing and numeral characters, else the first), turns those four two-character sequences back into one code, and reports every character outside the index as not encodable.",
  ["inputs"], "all lead and trail byte pairs, all Unicode scalar values, all neighbouring characters, all buffer lengths, both end flags",
  "One pass over the table in one fixed order with one large buffer, where each code is followed by a newline; the undefined codes, other neighbours, other positions and tight buffers are left out.",
  ["src/big5_whatwg.rs", "src/generated/whatwg/big5_whatwg_tables.rs.inc"], [("binary search in the encode table", "big5_whatwg.rs encode_from_str"), ("combining sequence lookahead", "big5_whatwg.rs encode_from_str, map_grapheme"), ("pointer arithmetic and hole marker", "big5_whatwg.rs decode_to_str")],
  ["result of each call against the WHATWG index"])
p("C08", "Shift JIS follows the WHATWG index and its special ranges",
  "Decoding Shift JIS maps bytes 0 to 0x80 to themselves, 0xA1 to 0xDF to half-width katakana, each two-byte code of the WHATWG index to its character, the user-defined rows to U+E000 to U+E757, and treats everything else as an error. Encoding is the inverse, with the duplicates resolved as WHATWG does (never to the NEC-selected rows, else the first code), U+00A5 written as 0x5C, U+203E as 0x7E and U+2212 like U+FF0D, and every other character reported as not encodable.",
  ["inputs"], "all lead and trail byte pairs, all Unicode scalar values, all positions and contexts, all buffer lengths, both end flags",
  "One pass over the table in one fixed order with one large buffer plus a few edge values; the user-defined rows, undefined codes and tight buffers are not covered.",
  ["src/shiftjis_whatwg.rs", "src/generated/whatwg/shiftjis_whatwg_tables.rs.inc"], [("special-case ranges before the table", "shiftjis_whatwg.rs encode_from_str, decode_to_str"), ("binary search in the encode table", "shiftjis_whatwg.rs encode_from_str")],
  ["result of each call against the WHATWG index"])
p("C09", "Conversions are lossless or return an error",
  "Any text that encodes without an error decodes back, without an error, to the same text; the only exceptions are the documented U+00A5, U+203E and U+2212 in Shift JIS. In every encoding but Big5 and Shift JIS, any bytes that decode without an error encode back to the same bytes; in those two they encode to bytes that decode to the same text.",
  ["inputs"], "all texts and all byte strings, all encodings",
  "The round-trip tests cover the five Unicode encodings with 512 random printable texts each; the other 33 encodings have no round-trip test.",
  ALL, [("paired encode and decode tables", "src/generated"), ("mirrored special cases", "big5_whatwg.rs, shiftjis_whatwg.rs")], ["decode of each encode result, encode of each decode result"])
p("C10", "Encoder output is exactly the encoding of the input it consumed",
  "When an encode call succeeds, the returned bytes are the complete and valid encoding of exactly the leading input it reports as consumed, the consumed count falls between two characters, and no character is written in part, skipped, repeated or reordered. A combining sequence that encodes as one code is consumed as a whole.",
  ["inputs", "configurations"], "all encodings x all texts x all output buffer lengths x both end flags",
  "A handful of fixed strings and buffer lengths per encoding; mixed-width text that ends just before or behind the end of the buffer is sampled, not covered.",
  ALL, [("output space test before each unit", "each encode_from_str"), ("consumed count advanced to the next char boundary", "end of each encode_from_str")], ["returned slice and consumed count of each call"], IO)
p("C11", "Decoder output is exactly the decoding of the input it consumed",
  "When a decode call succeeds, the returned text is exactly what the leading input it reports as consumed decodes to, that input is made of whole encoded units, and no character is written in part, skipped, repeated or reordered.",
  ["inputs", "configurations"], "all encodings x all byte strings x all output buffer lengths x both end flags",
  "A handful of fixed strings and buffer lengths per encoding, always with valid or nearly valid data.",
  ALL, [("output space test before each unit", "each decode_to_str"), ("counters advanced only after the copy", "each decode_to_str")], ["returned text and consumed count of each call"], IO)
p("C12", "Each call converts everything that fits, so streaming always advances",
  "A successful call consumes all input unless the next character does not fit in what is left of the output buffer, or the rest is an incomplete sequence that waits for more input, or an error is due that there is no room left to reach. So with room for one unit of the target encoding and a complete next unit in the input, every call either consumes input or reports an error, and a streaming loop always finishes.",
  ["inputs", "configurations", "histories"], "all encodings x all inputs x all output buffer lengths x both end flags, and all sequences of streaming calls",
  "Tests fix a few buffer lengths; stopping one character early still passes a streaming round trip, because the loop simply calls again.",
  ALL, [("output space test against the exact unit length", "each encode_from_str / decode_to_str")], ["consumed count and returned length of each call", "number of calls per stream"], IO)
p("C13", "Encode errors name the first unencodable character exactly",
  "An encode call fails exactly when it reaches a character the encoding cannot represent, and the error carries that character and its exact byte range in the input. The output bytes it reports as written are the encoding of all text before it, so a caller can skip or replace the character and go on; the Unicode encodings never fail.",
  ["inputs", "histories"], "all encodings x all texts x all positions of the unencodable character x all buffer lengths",
  "Each encoding has at most four fixed error tests, all with one emoji character in a short string.",
  ALL, [("error built from the char offset and output counter", "encode_from_str in single_byte.rs, big5_whatwg.rs, shiftjis_whatwg.rs")], ["fields of each error value", "leading bytes of the output buffer", "continuation after each error"])
p("C14", "Decode errors delimit exactly the malformed bytes",
  "A decode call fails, as invalid data, exactly when it reaches malformed input; the error range starts at the first malformed byte, all text before it has been written and is counted, and decoding can go on right behind the range. The range never takes in valid data: it is one byte in single-byte encodings, one code unit in UTF-16 and UTF-32, the lead byte in Big5 and Shift JIS plus the second byte only if that is not ASCII, and in UTF-8 the bytes up to the next one that can start a character (lead bytes C0, C1 and F5 to F7 count as able to); a truncated end is covered to its end.",
  ["inputs", "histories"], "all encodings x all malformed inputs x all positions x all buffer lengths",
  "Up to a dozen fixed malformed strings per encoding; the malformed byte combinations, and what follows them, are far more numerous.",
  ALL, [("error range built at each rejection point", "each decode_to_str")], ["fields of each error value", "leading bytes of the output buffer", "continuation after each error"])
p("C15", "Incomplete input waits for more unless the end is declared",
  "If the input ends in the middle of an encoded unit, a decode call that is not told this is the end succeeds, leaving exactly those bytes unconsumed, and one that is told so reports them as an error; an encoder that needs to see the next character likewise leaves a trailing one unconsumed until the end is declared, and then encodes it alone. The end flag changes nothing else.",
  ["inputs", "configurations"], "all encodings x all inputs x all truncation points x all buffer lengths, each with both end flags",
  "Truncation is tested on one or two strings per encoding; nothing checks that the flag leaves complete inputs alone.",
  ["src/utf8.rs", "src/utf16_be.rs", "src/utf16_le.rs", "src/utf32_be.rs", "src/utf32_le.rs", "src/big5_whatwg.rs", "src/shiftjis_whatwg.rs"],
  [("is_end test at each truncation point", "each decode_to_str, big5_whatwg.rs encode_from_str")], ["pair of results for the two flags"])
p("C16", "Decoding in chunks gives the same result as decoding at once",
  "However the input bytes are split into chunks, even inside a character, and whatever output buffers of at least four bytes are used, decoding piece by piece with unconsumed bytes carried over gives the same text and reports the same malformed bytes at the same places as decoding everything in one call. The whole stream is processed in a number of calls bounded by its length.",
  ["inputs", "histories"], "all encodings x all byte strings x all ways to split them x all sequences of buffer lengths, continuing after errors",
  "The round-trip tests stream with one 32-byte buffer but always pass all remaining input, so no test ever splits the input of a valid stream or goes on after an error.",
  ALL, [("unconsumed tail returned to the caller", "each decode_to_str"), ("is_end flag", "each decode_to_str")], ["sequence of texts, consumed counts and errors of a stream"])
p("C17", "Encoding in chunks gives the same result as encoding at once",
  "However the text is split into chunks between characters, and whatever output buffers of at least four bytes are used, encoding piece by piece with unconsumed text carried over gives the same bytes and the same unencodable characters as encoding everything in one call. This includes combining sequences split over two chunks.",
  ["inputs", "histories"], "all encodings x all texts x all ways to split them x all sequences of buffer lengths, continuing after errors",
  "The round-trip tests stream with one 32-byte buffer, only in the Unicode encodings, and always pass all remaining text.",
  ALL, [("unconsumed tail returned to the caller", "each encode_from_str"), ("lookahead guarded by is_end", "big5_whatwg.rs encode_from_str")], ["sequence of outputs, consumed counts and errors of a stream"])
p("C18", "Results depend only on the arguments, also under concurrency",
  "The outcome of a call is a function of its arguments alone: not of the earlier contents or the alignment of the buffers, of earlier calls, or of calls running at the same time in other threads. Concurrent calls on shared input have no data race.",
  ["histories", "schedules", "inputs"], "all call histories and interleavings of calls on any encodings, all prior buffer contents and alignments",
  "Every test makes isolated calls into zeroed buffers and compares each with one expected value; none repeats a call in another order or thread.",
  ALL, [("no state: functions over const tables", "all modules")], ["digest of each result under different histories and schedules", "ThreadSanitizer reports"])
p("C19", "The two byte orders of UTF-16 and UTF-32 mirror each other",
  "Encoding the same text in the big-endian and the little-endian form of UTF-16 or UTF-32 gives the same outcome and consumed count, with output that differs only in the byte order within each unit. Decoding data and its byte-swapped form gives the same text, consumed count or error.",
  ["inputs"], "all texts and all byte strings (swapped unit by unit), all buffer lengths, both end flags",
  "Each byte order has its own copy of the code and its own tests; no test compares them.",
  ["src/utf16_be.rs", "src/utf16_le.rs", "src/utf32_be.rs", "src/utf32_le.rs"], [("twin implementations", "utf16_be.rs / utf16_le.rs, utf32_be.rs / utf32_le.rs")], ["pair of results for the two byte orders"])
p("C20", "Calls allocate nothing and their stack use does not grow with the input",
  "No encode or decode call allocates heap memory, whatever its outcome. Its use of the stack is bounded independently of the length of its input and output, and in an optimised build stays below 64 KiB.",
  ["inputs"], "all encodings x all inputs x all buffer lengths x both end flags",
  "No test observes allocation or stack depth, and none uses an input longer than a table.",
  ALL, [("no_std without alloc; all output goes to the caller's buffer", "lib.rs")], ["allocator calls during each call", "stack high-water mark of each call"])
p("C21", "Regenerating the tables from the checked-in data changes nothing",
  "Running the checked-in generator scripts on the checked-in mapping data reproduces code tables with which every encode and decode call behaves exactly as with the checked-in ones, and test data the library still passes. So the shipped tables can be rebuilt and maintained from their sources.",
  ["programs", "inputs"], "all 32 generated tables x all bytes, byte pairs and Unicode scalar values",
  "No test runs the generator scripts; a change to a script or a data file, or a hand edit of a table, goes unnoticed until someone regenerates.",
  ["encoding_tables/single_byte/generate_ascii_ext_tables.py", "encoding_tables/whatwg/generate_big5.py", "encoding_tables/whatwg/generate_shiftjis.py", "encoding_tables", "src/generated"],
  [("table generation and duplicate removal", "encoding_tables/**/generate_*.py")], ["behaviour of the library built from regenerated tables"])
p("C22", "The work of a conversion is in proportion to its length",
  "The time a call takes is at most proportional to the input it consumes or reports as malformed plus the room in the output buffer: it does not depend on how much input is still to come. So converting a text takes time in proportion to its length, in one call or in many through a small buffer, with errors in it or without, whatever the characters and the encoding; a call that has next to no room takes next to no time.",
  ["inputs", "histories"], "all encodings x all texts and byte strings of any length x all buffer lengths",
  "The tests assert results, never cost, and convert texts of at most a few hundred bytes, where quadratic work cannot be noticed.",
  ALL, [("loops end when the output buffer is full", "each encode_from_str and decode_to_str"), ("validation of no more than fits", "utf8.rs decode_to_str")], ["processor time of whole conversions at three lengths", "processor time of calls with little room"])
p("C23", "Every platform and build gives the same results",
  "The outcome of a call (output, consumed count, error and its fields) is the same on every target: with 32- and 64-bit pointers, in either byte order of the machine, with and without optimisation, debug assertions and overflow checks; also for inputs and buffers as large as a 32-bit machine can hold. The crate builds without the standard library.",
  ["inputs", "configurations"], "all encodings x all inputs x all buffer lengths x all targets and build profiles",
  "The tests run in one build on one little-endian 64-bit machine.",
  ALL, [("explicit byte orders, u32 and usize arithmetic", "utf16_*.rs, utf32_*.rs, big5_whatwg.rs, shiftjis_whatwg.rs"), ("no_std", "lib.rs")], ["digest of the results of one workload on each target"])
p("C24", "Transcoding through fixed buffers gives the whole converted text",
  "Text in any of the 38 encodings can be converted to any other with the streaming loop the crate is made for: decode what has arrived into a fixed text buffer, encode that into a fixed output buffer, carry over what either did not consume, leave out malformed bytes and put a replacement for unencodable characters. With buffers from 8 and 4 bytes up, and however the data arrives, the loop finishes, every input byte is converted or reported as malformed exactly once, every unencodable character is reported exactly once, and the output is the encoding of the whole decoded text.",
  ["inputs", "configurations", "histories"], "all pairs of encodings x all byte strings x all ways to split them x all sizes of the two buffers x all orders of the decode and encode calls",
  "No test connects a decoder to an encoder of another encoding, passes on partly consumed text, or goes on after an error.",
  ALL, [("consumed counts and error ranges handed to the caller", "each encode_from_str / decode_to_str"), ("lookahead and truncation guarded by is_end", "each decode_to_str, big5_whatwg.rs encode_from_str")],
  ["log of the consumed ranges, malformed ranges and replaced characters of a pipeline", "its whole output"])
p("C25", "A call may be interrupted by other calls or abandoned at any instruction",
  "A call made while another call is in progress on the same thread, as in a signal or interrupt handler, returns with its usual result whatever instruction of the other it interrupts, and the interrupted call then goes on to its own usual result. So a call that is suspended or abandoned midway never blocks or falsifies other calls. At no instruction does a call change its input or memory next to its buffers, even for a time.",
  ["schedules", "inputs", "crash_points"], "all pairs of calls x all instructions at which the first can be interrupted or abandoned",
  "No test makes a call while another is in progress; a lock or a cache guarded by one gives right results in every test, and even under threads, but hangs in a handler.",
  ALL, [("no state and no locks: functions over const tables and the caller's buffers", "all modules")],
  ["result of each call made at each instruction of another", "input, output and neighbouring memory of the interrupted call after each instruction", "progress of the interrupting call"])
with open(OUT, "w") as f:
    for r in P:
        assert len(r["title"]) <= 80, r["id"]
        f.write(json.dumps(r, ensure_ascii=False) + "\n")
print(len(P))

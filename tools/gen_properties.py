#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = ["src/utf8.rs", "src/utf16_le.rs", "src/utf16_be.rs", "src/utf32_le.rs", "src/utf32_be.rs",
       "src/big5_whatwg.rs", "src/shiftjis_whatwg.rs", "src/single_byte.rs", "src/lib.rs",
       "src/generated/single_byte", "src/generated/whatwg"]
P = []
def p(id, title, statement, over_text, why, files, mech, over=("inputs",), observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": over_text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or ["return value of decode_to_str()/encode_from_str()", "contents of out_buffer"],
                          "hook_needed": None}})

DEC = ("decode_to_str() of every module", "src/*.rs")
ENC = ("encode_from_str() of every module", "src/*.rs")

p("C01", "Decoding is total, memory-safe and only ever yields well-formed UTF-8",
  "For any byte string, any output buffer length and either value of is_end, every decoder returns without panicking, overflowing, reading or writing out of bounds or looping forever. On success the returned str is well-formed UTF-8, is the start of the caller's buffer, fits in it, and the consumed count does not exceed the input; on error the first output_bytes_written bytes of the buffer are well-formed UTF-8 that fit in it and the error range is a non-empty range inside the input.",
  "all 38 decoders x all byte strings x all buffer lengths x is_end",
  "Every decoder ends in from_utf8_unchecked; the random-byte tests only use one roomy 4096-byte buffer, never look at the result, and cover 9 of 38 modules.",
  ALL, [DEC, ("from_utf8_unchecked / from_u32_unchecked", "src/*.rs"), ("UTF-8 truncation of the copy", "src/utf8.rs copy_len")])
p("C02", "Encoding is total and memory-safe and stays on character boundaries",
  "For any text, any output buffer length and either value of is_end, every encoder returns without panicking, overflowing, accessing out of bounds or looping forever. On success the returned slice is the start of the caller's buffer and fits in it, and the consumed count lies inside the text on a character boundary; on error the reported bytes written fit in the buffer and the reported range lies inside the text on character boundaries.",
  "all 38 encoders x all texts x all buffer lengths x is_end",
  "Random-text tests use one 4096-byte buffer and ignore the result; buffer lengths around multi-byte boundaries are only sampled for a few strings.",
  ALL, [ENC, ("round-up to a char boundary", "src/*.rs: `while !input.is_char_boundary`")])
p("C03", "UTF-8 decoding accepts exactly well-formed UTF-8, byte for byte",
  "With enough output room, the UTF-8 decoder reproduces its input up to the first ill-formed sequence and nothing else: overlong forms, surrogates, values above U+10FFFF, stray continuation bytes and bad lead bytes are rejected at their first byte, and every well-formed sequence is passed through unchanged. UTF-8 encoding is the identity on the text that fits.",
  "all byte strings and texts within the bound, all buffer lengths, is_end",
  "Tests use a few Japanese strings; the set of ill-formed sequences is combinatorial.",
  ["src/utf8.rs"], [("decode_to_str", "src/utf8.rs"), ("encode_from_str", "src/utf8.rs")])
p("C04", "UTF-16 decoding matches the Unicode standard in both byte orders",
  "With enough output room, the UTF-16LE and UTF-16BE decoders turn each code unit outside the surrogate range, and each high+low surrogate pair, into exactly the Unicode scalar value the standard assigns, and report InvalidData with a two-byte range for a lone low surrogate or a high surrogate not followed by a low one. An incomplete unit or pair at the end is left unconsumed when is_end is false and reported as an error reaching to the end of input when it is true.",
  "all byte strings within the bound, is_end",
  "65,536 units and about a million pairs per position; tests have a handful of fixed strings and random bytes whose result is ignored.",
  ["src/utf16_le.rs", "src/utf16_be.rs"], [("decode_to_str", "src/utf16_le.rs"), ("decode_to_str", "src/utf16_be.rs")])
p("C05", "UTF-32 decoding accepts exactly Unicode scalar values",
  "With enough output room, the UTF-32LE and UTF-32BE decoders turn each aligned four-byte unit holding a Unicode scalar value into that character and report InvalidData with that four-byte range for surrogates and values above U+10FFFF. An incomplete unit at the end is left unconsumed when is_end is false and reported as an error reaching to the end of input when it is true.",
  "all byte strings within the bound, is_end",
  "2^32 units per position; tests sample three invalid values.",
  ["src/utf32_le.rs", "src/utf32_be.rs"], [("decode_to_str", "src/utf32_le.rs"), ("decode_to_str", "src/utf32_be.rs")])
p("C06", "Unicode encodings encode every character to the standard bytes",
  "For every text, the UTF-16 and UTF-32 encoders (both byte orders) and the UTF-8 encoder write exactly the code units the Unicode standard assigns to each character, in the right byte order, never report an error, and consume all the text when the buffer is large enough.",
  "all texts within the bound (every Unicode scalar value in every position)",
  "1.1 million characters; round-trip tests compare only with the crate's own decoder on random strings, so a matching error on both sides is invisible.",
  ["src/utf8.rs", "src/utf16_le.rs", "src/utf16_be.rs", "src/utf32_le.rs", "src/utf32_be.rs"], [ENC])
p("C07", "Each single-byte decoder follows its published code page",
  "For each of the 31 single-byte encodings, every byte decodes to exactly the character its published mapping table gives, bytes below 0x80 decode to themselves, and a byte the table leaves undefined is reported as InvalidData covering that one byte.",
  "all 31 code pages x all bytes, at every position within the bound",
  "Only ascii, latin-1 and iso-8859-7 are exercised at all; 28 generated tables have no test.",
  ["src/single_byte.rs", "src/generated/single_byte"], [("ascii_ext_decode_to_str", "src/single_byte.rs"), ("DECODE_TABLE", "src/generated/single_byte/*.inc")])
p("C08", "Each single-byte encoder accepts exactly its code page's characters",
  "For each of the 31 single-byte encodings, a character encodes to one byte if and only if the published mapping table contains it, that byte is the one the table maps to the character, and ASCII characters encode to themselves. Every other character is reported as an error naming that character and its byte range.",
  "all 31 code pages x every Unicode scalar value, at every position within the bound",
  "1.1 million characters per code page; the lookup is a binary search whose table must be sorted; 28 tables have no test.",
  ["src/single_byte.rs", "src/generated/single_byte"], [("ascii_ext_encode_from_str", "src/single_byte.rs"), ("ENCODE_TABLE", "src/generated/single_byte/*.inc")])
p("C09", "Big5 decoding follows the WHATWG index and error rules",
  "Every Big5 byte sequence decodes as WHATWG Big5 prescribes: ASCII bytes are themselves, a valid pair gives the character of index-big5 (or the two-character sequences for 8862, 8864, 88A3, 88A5), and everything else is InvalidData. The error range covers the lead byte alone when the lead is invalid or the second byte is ASCII or missing at the end of the input, and both bytes otherwise.",
  "all byte strings within the bound, is_end",
  "The data-file test decodes each defined pair once in one buffer; undefined pairs, error ranges and truncation are only sampled.",
  ["src/big5_whatwg.rs", "src/generated/whatwg/big5_whatwg_tables.rs.inc"], [("decode_to_str", "src/big5_whatwg.rs"), ("DECODE_TABLE", "src/generated/whatwg/big5_whatwg_tables.rs.inc")])
p("C10", "Big5 encoding uses the preferred index entry, greedily pairing Ê and ê",
  "Every character present in index-big5 encodes to the preferred (de-duplicated) pair for it, U+00CA and U+00EA followed by U+0304 or U+030C encode together to the dedicated pair, ASCII encodes to itself and any other character is an error naming it. A trailing U+00CA or U+00EA is held back unconsumed when is_end is false and encoded on its own when it is true.",
  "every Unicode scalar value and every pair of characters within the bound, is_end",
  "Characters outside the index, character pairs and the is_end hold-back are only sampled by tests.",
  ["src/big5_whatwg.rs", "src/generated/whatwg/big5_whatwg_tables.rs.inc"], [("encode_from_str, map_grapheme", "src/big5_whatwg.rs"), ("ENCODE_TABLE", "src/generated/whatwg/big5_whatwg_tables.rs.inc")])
p("C11", "Shift JIS decoding follows the WHATWG index and error rules",
  "Every Shift JIS byte sequence decodes as WHATWG Shift_JIS prescribes: bytes up to 0x80 are themselves, A1-DF are half-width katakana, a valid pair gives the character of index-jis0208 or the private-use character U+E000..U+E757, and everything else is InvalidData. The error range covers the lead byte alone when the lead is invalid or the second byte is ASCII or missing at the end of the input, and both bytes otherwise.",
  "all byte strings within the bound, is_end",
  "The data-file test decodes each defined pair once in one buffer; undefined pairs, the private-use area, error ranges and truncation are only sampled.",
  ["src/shiftjis_whatwg.rs", "src/generated/whatwg/shiftjis_whatwg_tables.rs.inc"], [("decode_to_str", "src/shiftjis_whatwg.rs"), ("DECODE_TABLE", "src/generated/whatwg/shiftjis_whatwg_tables.rs.inc")])
p("C12", "Shift JIS encoding uses the preferred index entry and the special cases",
  "Every character encodes as WHATWG Shift_JIS prescribes: U+0000..U+0080 as one byte, U+00A5 as 5C, U+203E as 7E, U+FF61..U+FF9F as A1..DF, U+2212 like U+FF0D, private-use U+E000..U+E757 as F040..F9FC, and every other character in index-jis0208 as its preferred (de-duplicated) pair. Any other character is reported as an error naming that character and its byte range.",
  "every Unicode scalar value, at every position within the bound",
  "The private-use area (1,880 characters), boundaries of the special ranges and all unencodable characters are only sampled by tests.",
  ["src/shiftjis_whatwg.rs", "src/generated/whatwg/shiftjis_whatwg_tables.rs.inc"], [("encode_from_str", "src/shiftjis_whatwg.rs"), ("ENCODE_TABLE", "src/generated/whatwg/shiftjis_whatwg_tables.rs.inc")])
p("C13", "Text that encodes without error decodes back to the same text",
  "For every encoding and every text, if the encoder accepts the text (whole text, is_end true, enough room), then decoding the produced bytes with the same encoding succeeds, consumes all of them and gives back exactly the original text. Encoding is therefore either lossless or an error.",
  "all 38 encodings x all texts within the bound",
  "Round-trip tests exist for 8 encodings on random strings; Big5, Shift JIS and 28 code pages have none.",
  ALL, [ENC, DEC, ("module documentation", "src/shiftjis_whatwg.rs, src/big5_whatwg.rs, src/lib.rs 'Round-trip Conversions'")])
p("C14", "Bytes that decode without error re-encode to equivalent bytes",
  "For every encoding, text obtained by decoding bytes without error is always accepted by the same encoding's encoder. For the UTF and single-byte encodings re-encoding gives back exactly the original bytes; for Big5 and Shift JIS it gives bytes that decode to the same text again.",
  "all 38 encodings x all byte strings within the bound",
  "Only ascii, latin-1 and iso-8859-7 have a test in this direction, on random bytes.",
  ALL, [DEC, ENC])
p("C15", "Decoding is independent of how the input is cut into chunks",
  "For every decoder and every way of cutting a byte string in two at any byte, decoding the first part with is_end false and then the unconsumed rest plus the second part with is_end true gives the same text, and if there is an error the same first bad byte, as decoding the whole string at once. Data that is merely cut short by the chunk boundary is never reported as an error, and no byte is lost or decoded twice.",
  "all 38 decoders x all byte strings within the bound x all cut positions",
  "No test feeds a decoder in input chunks cut at arbitrary positions and compares with the unsplit result.",
  ALL, [DEC, ("is_end handling of truncated tails", "src/utf8.rs, src/utf16_*.rs, src/utf32_*.rs, src/big5_whatwg.rs, src/shiftjis_whatwg.rs")], over=("inputs", "histories"))
p("C16", "Encoding is independent of how the text is cut into chunks",
  "For every encoder and every way of cutting a text in two at a character boundary, encoding the first part (is_end false where that flag exists) and then the unconsumed rest plus the second part gives the same bytes, and if there is an error the same character and position, as encoding the whole text at once. No character is lost, encoded twice or encoded differently because of the cut.",
  "all 38 encoders x all texts within the bound x all cut positions",
  "Only Big5's stateful grapheme handling has two hand-written cases; no test compares chunked with unsplit encoding.",
  ALL, [ENC, ("look-ahead with is_end", "src/big5_whatwg.rs encode_from_str")], over=("inputs", "histories"))
p("C17", "A small output buffer only shortens decoding, never changes it",
  "For every decoder, input and buffer length, a decode call without error returns the longest prefix of the full decoded text made of whole decoded units that fits the buffer, and a consumed count that matches it exactly. Continuing from there with a fresh buffer of the same size until done yields the same text, and the same first error, as one call with a large buffer.",
  "all 38 decoders x all byte strings within the bound x all buffer lengths",
  "Tests check some buffer lengths for a few fixed strings; a boundary error needs a particular character width meeting a particular remaining space.",
  ALL, [DEC, ("output room checks", "src/*.rs decode_to_str"), ("copy_len", "src/utf8.rs")], over=("inputs", "histories"))
p("C18", "A small output buffer only shortens encoding, never changes it",
  "For every encoder, text and buffer length, an encode call without error returns the longest prefix of the full encoded form made of whole encoded characters that fits the buffer, and a consumed count that matches it exactly. Continuing from there with a fresh buffer of the same size until done yields the same bytes, and the same first error, as one call with a large buffer.",
  "all 38 encoders x all texts within the bound x all buffer lengths",
  "Tests check some buffer lengths for a few fixed strings; a boundary error needs a particular character width meeting a particular remaining space.",
  ALL, [ENC, ("output room checks", "src/*.rs encode_from_str")], over=("inputs", "histories"))
p("C19", "Decode errors are exact and recoverable",
  "When a decoder reports an error, everything before the error range has been decoded into the reported number of output bytes, the range starts exactly at the first undecodable byte, and its cause is InvalidData. The range never covers a byte at which valid text resumes (in the byte-oriented encodings it covers no ASCII byte), so skipping it and continuing loses no valid character, wherever in the input or near its end the error occurs. In UTF-8 it takes in the whole run of bytes behind the first that cannot have the role of a starting byte (80-BF, F8-FF), so such a run is one error, however long; in the other encodings it is exactly the one bad unit (for an incomplete last one, what is there of it).",
  "all 38 decoders x all byte strings within the bound x is_end",
  "Error positions, ranges near the end of input and what follows an error are only checked on about forty fixed strings.",
  ALL, [DEC, ("DecodeError construction", "src/*.rs"), ("search for the end of the error", "src/utf8.rs decode_to_str")])
p("C20", "Encode errors are exact and recoverable",
  "When an encoder reports an error, the named character is the first one the encoding cannot represent, the range is exactly that character's bytes in the text, and everything before it has been encoded into the reported number of output bytes. A caller can skip exactly that range and go on with the text behind it, which encodes as text of its own.",
  "all encoders that can fail (33) x all texts within the bound",
  "Error reports are checked on a dozen fixed strings in three modules.",
  ["src/big5_whatwg.rs", "src/shiftjis_whatwg.rs", "src/single_byte.rs", "src/lib.rs", "src/generated"], [ENC, ("EncodeError construction", "src/*.rs")])
p("C21", "is_end matters only for input that stops mid-character",
  "For every decoder that takes is_end, the flag changes the result only when the input stops inside an incomplete but so far valid character: then false leaves exactly that tail (at most three bytes) unconsumed without error, and true reports an error that starts at that tail and reaches the end of the input. With enough output room, a successful call with true consumes the whole input, and a successful call with false leaves unconsumed only such a tail.",
  "7 stateful decoders x all byte strings within the bound",
  "Tests truncate a few fixed strings at a few places.",
  ["src/utf8.rs", "src/utf16_le.rs", "src/utf16_be.rs", "src/utf32_le.rs", "src/utf32_be.rs", "src/big5_whatwg.rs", "src/shiftjis_whatwg.rs"], [("is_end branches", "src/*.rs decode_to_str")])
p("C22", "Every call with four bytes of output room makes progress",
  "Given non-empty input, an output buffer of at least four bytes and is_end true, every decode or encode call either consumes at least one byte and writes at least one byte, or returns an error. A caller's streaming loop therefore always terminates.",
  "all 38 encodings, both directions x all inputs within the bound x buffer lengths of 4 and more",
  "A stall needs one particular character meeting one particular amount of room; tests do not look for it.",
  ALL, [DEC, ENC], over=("inputs", "histories"))
p("C23", "ASCII passes through every ASCII-compatible encoding unchanged",
  "In UTF-8, Big5, Shift JIS and all 31 single-byte encodings, text made only of ASCII characters encodes to the same bytes and those bytes decode to the same text, in full when the buffer is large enough and otherwise exactly up to the buffer's length, never with an error. This holds wherever the ASCII text stands, including after and before other characters.",
  "34 encodings x all ASCII strings within the bound x all buffer lengths",
  "Tests use a few fixed ASCII strings and only in three single-byte modules.",
  ["src/utf8.rs", "src/big5_whatwg.rs", "src/shiftjis_whatwg.rs", "src/single_byte.rs"], [("ASCII branches", "src/*.rs")])
p("C24", "Results depend only on the arguments, not on old buffer contents",
  "For every encoder and decoder, the result (text or bytes, consumed count, or error) is the same whatever the output buffer held before the call, and nothing the buffer held before ever shows up in the returned text or bytes or in the part reported as written on error.",
  "all 38 encodings, both directions x all inputs within the bound x all prior buffer contents",
  "Every test starts from a zeroed buffer, so a stale byte inside the reported part would go unnoticed.",
  ALL, [DEC, ENC], over=("inputs", "histories"))
p("C25", "Results do not depend on where input and buffer lie in memory",
  "For every encoder and decoder, the result (text or bytes, consumed count, or error with its range and byte count) is the same whatever the addresses and alignment of the input and of the output buffer are. Two calls with equal input bytes and equal buffer lengths are indistinguishable.",
  "all 38 encodings, both directions x all inputs within the bound x relative positions of input and buffer",
  "Tests use whatever alignment the compiler picked for their arrays and literals; an error in a word-wise fast path shows at one alignment only.",
  ALL, [DEC, ENC], over=("inputs", "histories"))
p("C26", "Calls leave nothing behind: the same call always gives the same result",
  "For every encoder and decoder, repeating a call with equal arguments gives an equal result (text or bytes, consumed count, or error), whatever calls of this or another encoding, in either direction, were made in between. The crate keeps no state: all state of a conversion is in the caller's slices.",
  "all 38 encodings, both directions x all inputs within the bound x intervening calls",
  "Tests call each function in isolation and never compare repeated or interleaved calls.",
  ALL, [DEC, ENC], over=("inputs", "histories"))
p("C27", "Skipping reported errors recovers every valid character of damaged input",
  "For every decoder and any byte string, the loop 'decode with is_end true; on success go on behind the consumed bytes, on error keep the reported text and go on behind the reported range' terminates with the whole input covered. It yields exactly the valid characters of the input in order: none is lost inside an error range, none is produced twice, and no text is invented for the bytes skipped. This holds for a large buffer and for any buffer of at least four bytes.",
  "all 38 decoders x all byte strings within the bound x buffer lengths of 4 and more",
  "A lossy-decoding loop needs error ranges, byte counts and consumed counts to agree over several calls; tests only look at single errors.",
  ALL, [DEC, ("DecodeError ranges", "src/*.rs")], over=("inputs", "histories"))
p("C28", "Skipping reported errors encodes every encodable character of a text",
  "For every encoder and any text, the loop 'encode; on success go on behind the consumed text, on error keep the reported bytes and go on behind the named character' terminates with the whole text covered. It yields exactly the bytes of the encodable characters in order, and stops once at every character the encoding lacks. This holds for a large buffer and for any buffer of at least four bytes.",
  "all 38 encoders x all texts within the bound x buffer lengths of 4 and more",
  "A replacement loop needs error ranges, byte counts and consumed counts to agree over several calls; tests only look at single errors.",
  ALL, [ENC, ("EncodeError ranges", "src/*.rs")], over=("inputs", "histories"))
p("C29", "Streaming through small chunks and small buffers equals one big call",
  "For every encoder and decoder, feeding the input a few bytes (or characters) at a time, keeping what was not consumed, and draining through an output buffer of any fixed length of at least four bytes produces exactly the output, and the same first error at the same place, that a single call with the whole input and a large buffer produces. The loop always terminates.",
  "all 38 encodings, both directions x all inputs within the bound x chunk lengths x buffer lengths",
  "The documented purpose of the API, but no test drives any module through a loop with both small chunks and small buffers.",
  ALL, [DEC, ENC, ("is_end and consumed count", "src/*.rs")], over=("inputs", "histories"))
p("C30", "The two byte orders of UTF-16 and UTF-32 mirror each other",
  "Decoding a byte string as UTF-16LE (UTF-32LE) and decoding the same string with the bytes of every complete code unit reversed as UTF-16BE (UTF-32BE), with the same buffer length and is_end, give the same result: the same text and consumed count, or the same error with the same range and byte count. Encoding the same text into buffers of the same length consumes the same amount in both byte orders and writes the same code units, each with its bytes reversed.",
  "all byte strings and texts within the bound x all listed buffer lengths x is_end",
  "The byte orders are separate copies of the code; tests run the same few strings through each and never compare them on damaged or cut input or with little room.",
  ["src/utf16_le.rs", "src/utf16_be.rs", "src/utf32_le.rs", "src/utf32_be.rs"], [("decode_to_str", "src/utf16_*.rs, src/utf32_*.rs"), ("encode_from_str", "src/utf16_*.rs, src/utf32_*.rs")])
p("C31", "The consumed input is exactly what the returned output stands for",
  "For every encoder and decoder and any buffer length, converting only the consumed part of the input (on success) or only the part before the error range (on error), with a large buffer and is_end true, succeeds, consumes all of it, and gives exactly the output the first call returned or left in the buffer.",
  "all 38 encodings, both directions x all inputs within the bound x all listed buffer lengths x is_end",
  "Tests compare counts on fixed strings; whether count and output agree at every cut, before every error and with every room is a question about all inputs.",
  ALL, [DEC, ENC, ("consumed count and error range", "src/*.rs")])
p("C32", "A buffer of the encoding's worst-case size takes all input in one call",
  "A decode call with one output byte per input byte for UTF-8 and UTF-32, three for every two for UTF-16, two for each in Big5 and three for each in Shift JIS and the single-byte encodings, and an encode call with one output byte per byte of text for UTF-8, Big5, Shift JIS and the single-byte encodings, two for UTF-16 and four for UTF-32, never stops for lack of room: with is_end true it takes the whole input or reports an error, with is_end false it leaves at most an incomplete character of up to three bytes, and the result is the one any larger buffer gives.",
  "all 38 encodings, both directions x all inputs within the bound x is_end",
  "Callers size buffers by the worst case; tests use ample fixed buffers or far too small ones.",
  ALL, [DEC, ENC, ("output room checks", "src/*.rs")])
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))

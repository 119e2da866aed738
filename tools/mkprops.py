#!/usr/bin/env python3
"""Single source of properties.jsonl (edit here, run, commit both)."""
import json, os
P = []
def prop(id, title, statement, over, quant, why, files, mech, observe):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": quant},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})

prop("S01", "Input streams return exactly the source's bits, whatever was read before",
 "For every kind of input stream (byte string, seekable file, non-seekable pipe, sub-stream, fragmented stream, concatenation, compressed sub-file), reading at any bit address and width in either byte order returns exactly the bits the source holds there, independently of the order and history of earlier calls on that stream. A read that extends past the end of the data is reported (stream error, or the available prefix together with a missing-data indication) and never returns invented, shifted, repeated or foreign data. A pipe may discard only blocks older than its window of recent blocks; asking for a block it has discarded is an error, never wrong data.",
 ["histories", "inputs"], "all sources, all sequences of reads/seeks/searches at all addresses, sizes and byte orders, including block-cache eviction on pipes and fragment boundaries",
 "Results depend on the history of accesses (pipe block cache, current fragment, decompression window) and on the alignment of addresses with internal boundaries; the tests read a few files sequentially.",
 ["hachoir/stream/input.py", "hachoir/core/bits.py", "hachoir/field/sub_file.py", "hachoir/field/fragment.py"],
 [("InputStream.read/readBits/readBytes", "hachoir/stream/input.py"), ("InputPipe block LRU cache", "hachoir/stream/input.py"), ("FragmentedStream lookup", "hachoir/stream/input.py"), ("CompressedStream window", "hachoir/field/sub_file.py")],
 ["InputStream.readBits", "InputStream.readBytes", "InputStream.readInteger", "InputStream.read"])

prop("S02", "Stream size discovery is truthful, monotone and announced once",
 "The size a stream reports, once known, equals the true amount of data it can deliver and never changes afterwards; before that it is reported as unknown, and a size-at-least query answers truthfully for every size. Whether a stream's size becomes known through a size query, a read, a search or a seek, every registered observer of the size is notified exactly once with the true value.",
 ["histories", "inputs"], "all source lengths around block boundaries and all interleavings of size queries, size-at-least queries and reads on pipes, sub-streams and fragmented streams",
 "A pipe discovers its end as a side effect of reads in some order; only a history that asks for the size after or between reads at block boundaries shows a wrong value.",
 ["hachoir/stream/input.py"],
 [("InputPipe._append/_get/askSize", "hachoir/stream/input.py"), ("InputStream.setSize/askSize/sizeGe", "hachoir/stream/input.py"), ("InputSubStream/FragmentedStream askSize", "hachoir/stream/input.py")],
 ["InputStream.size", "InputStream.sizeGe", "InputStream.askSize", "InputStream.checked"])

prop("S03", "Stream search finds the first occurrence across buffer boundaries",
 "Searching a stream for a byte string between two addresses returns the address of the first occurrence that lies completely inside the range, and 'not found' exactly when there is none, however the occurrence falls relative to the internal read buffers. The length-until-needle query agrees with it, with or without counting the needle. Searching never changes what later reads return.",
 ["inputs"], "all data, needles (length 1 to several buffers), start/end addresses and positions of the needle relative to buffer boundaries, for every stream kind",
 "Needles that straddle a 4 KB read-buffer boundary, needles with self-overlap, and range ends that cut a needle are not sampled by tests.",
 ["hachoir/stream/input.py"],
 [("InputStream._searchBytes buffering", "hachoir/stream/input.py"), ("InputStream.searchBytesLength", "hachoir/stream/input.py")],
 ["InputStream.searchBytes", "InputStream.searchBytesLength"])

prop("S04", "The file-like view of a stream behaves as a read-only file",
 "The file object obtained from a stream behaves as a read-only binary file over exactly the stream's data: for any sequence of seek (from start, current position or end), tell and read with or without a size, positions and returned bytes equal those of an ordinary file holding the same bytes. Using the view does not disturb the stream or other views.",
 ["histories", "inputs"], "all interleavings of seek/tell/read on one or several views and direct reads of the stream",
 "Position bookkeeping errors only show for particular sequences (seek beyond the end, read all after a seek, interleaved views).",
 ["hachoir/stream/input.py", "hachoir/stream/input_helper.py"],
 [("FileFromInputStream", "hachoir/stream/input.py"), ("InputFieldStream / InputSubStream.file()", "hachoir/stream/input.py")],
 ["InputStream.file"])

prop("S05", "Bit and integer decoding follows the declared byte order for any offset",
 "For every bit offset, bit width and byte order (big, little, middle endian), reading an integer returns the value obtained by assembling the addressed bits in that order, signed reads use two's complement, and the integer, bit, bit-group and padding fields of a field set expose exactly that value for their address and size. Successive bit fields of a group never share or skip a bit.",
 ["inputs", "programs"], "all offsets 0..7, widths 1..64+, byte orders, bit patterns, and sequences of bit/integer fields",
 "The space offset x width x order x bit pattern is far larger than the handful of vectors in the tests; unaligned little-endian and 24-bit signed cases are not exercised.",
 ["hachoir/stream/input.py", "hachoir/core/bits.py", "hachoir/field/bit_field.py", "hachoir/field/integer.py", "hachoir/field/byte_field.py"],
 [("InputStream.readBits / readInteger", "hachoir/stream/input.py"), ("str2long / long2raw / swap16", "hachoir/core/bits.py"), ("GenericInteger / RawBits / Bit", "hachoir/field/integer.py")],
 ["InputStream.readInteger", "Field.value"])

prop("S06", "Output streams write exactly the requested bits and bytes",
 "Any sequence of bit, bit-group, byte, integer and copy-from-input writes to an output stream produces exactly the concatenation of what was written, in the requested byte order, and reading the produced data back with the same widths and order yields the written values (two's complement for signed integers). Misuse such as writing bytes while a partial byte is pending, or a value that does not fit, is refused and leaves the output unchanged.",
 ["histories", "inputs"], "all sequences of write operations with any widths, orders and values, and copies from any input address",
 "Pending-bit state makes the result depend on the whole write sequence; the tests write through only two or three calls.",
 ["hachoir/stream/output.py", "hachoir/core/bits.py"],
 [("OutputStream.writeBit/writeBits/writeInteger", "hachoir/stream/output.py"), ("copyBitsFrom/copyBytesFrom", "hachoir/stream/output.py")],
 ["OutputStream output file content"])

prop("F01", "Every parsed field set tiles its bits: contiguous, unique, inside the parent",
 "For every parser and every input, the fields of a sequential field set are contiguous: the first starts at 0, each next one starts where the previous ended, each has a known size (nested sets a positive one), and a finished set's fields cover exactly its size and stay inside the parent. Field names in a set are unique, and fields declared with an indexed name (\"x[]\") are numbered 0, 1, 2... in order of appearance (the filler added by automatic repair is literally named \"raw[]\"). Listing a finished set again shows the same fields.",
 ["programs", "inputs"], "all parser programs (nesting, leaf sizes, declared or discovered set sizes, errors, seeks and paddings) and all inputs including truncated ones, for hand-written and shipped parsers",
 "Tests check selected field values of a few dozen files; the tiling must hold for every intermediate state of every parser on every input.",
 ["hachoir/field/generic_field_set.py", "hachoir/field/field.py", "hachoir/field/padding.py"],
 [("GenericFieldSet._addField/_checkSize/_stopFeeding", "hachoir/field/generic_field_set.py"), ("setUniqueFieldName", "hachoir/field/generic_field_set.py")],
 ["Field.address", "Field.size", "Field.name", "iteration of a field set"])

prop("F02", "Lazy parsing is confluent: the access pattern never changes the tree",
 "Whatever order and mix of accesses a client uses (by index, by name, by path, iteration, length, size, partial feeding), the fields it sees have the same names, addresses, sizes and values as in a complete in-order parse; this holds for parsers whose decisions depend only on the data and on fields parsed before, on a source of known size. Fields already seen never change or move while more are parsed (except that a set which turns out smaller than the fields read to learn its size drops those beyond its end), and a by-index or by-name access parses no more fields than needed to reach it.",
 ["histories", "programs"], "all interleavings of lazy accesses at every level of the tree, on complete and on truncated input",
 "Laziness makes the parse a state machine driven by the client; tests use one fixed access order per file.",
 ["hachoir/field/generic_field_set.py", "hachoir/field/basic_field_set.py", "hachoir/field/fake_array.py"],
 [("GenericFieldSet._feedUntil/_feedAll/readFirstFields/readMoreFields", "hachoir/field/generic_field_set.py")],
 ["field access API", "current_length", "current_size", "done"])

prop("F03", "Truncated or corrupt input is repaired without losing what was parsed",
 "Parsing an input that ends early, or whose declared sizes exceed the space available, never raises to a client that merely walks a top-level parser with automatic repair on, always terminates, and yields a tree that still tiles the available data: every field wholly before the damage is the same as for the undamaged input (for parsers that do not look ahead; a set whose size was still undetermined when the damage was met may be dropped as a whole, its space shown as raw filler), a set that overruns is shortened to the available space, and space left unparsed is covered by raw filler fields. With automatic repair off the error is raised instead, and the fields parsed before it stay available.",
 ["fault_sequences", "inputs", "programs"], "truncation at every bit/byte of generated formats and of the sample files, byte corruption, parsers raising errors at every position, repair on and off",
 "The outcome depends on where the damage falls relative to field and set boundaries; the tests have at most a couple of damaged samples.",
 ["hachoir/field/generic_field_set.py", "hachoir/field/parser.py"],
 [("_fixFeedError / _fixLastField / _fixFieldSize / _truncate", "hachoir/field/generic_field_set.py")],
 ["field tree after parsing damaged input"])

prop("F04", "Path addressing and arrays reach exactly the named field",
 "A field's reported path leads back to that very field from the root and from any other field (relative, parent and absolute components included). A lookup that names no field reports a missing-field error (or answers 'not contained') without disturbing the set, and the virtual array view of indexed names lists exactly the members in order, with its length, indexing and iteration agreeing whatever was asked before.",
 ["histories", "programs"], "all trees with nested sets and indexed names, all path expressions, all sequences of array accesses while the set is only partially parsed",
 "Lookups interact with lazy parsing and cached array sizes, so only particular histories of hits and misses expose a wrong answer.",
 ["hachoir/field/field.py", "hachoir/field/generic_field_set.py", "hachoir/field/fake_array.py"],
 [("Field.path/_getPath, getField", "hachoir/field/field.py"), ("GenericFieldSet.getField/__getitem__/__contains__", "hachoir/field/generic_field_set.py"), ("FakeArray", "hachoir/field/fake_array.py")],
 ["Field.path", "__getitem__", "__contains__", "array()", "getFieldByAddress"])

prop("F05", "Rewriting and resetting fields keeps the tree consistent",
 "Replacing a field by others of the same total size, or writing fields over part of an existing field, leaves a set that still tiles the same bits in address order with unique names, with every untouched field as it was and gaps turned into padding; a replacement that is refused (unknown name, wrong size, name in use) changes nothing of the fields. Resetting a set and parsing it again, or reading a document in another order, yields the same tree as reading it once in order: names, addresses, sizes, values, and the streams of fragments, whatever part was read before.",
 ["histories", "programs"], "all sequences of replacements, overwrites, resets and lazy accesses, on finished and partially parsed sets",
 "These operations mutate the container while a parse may be in progress; tests do not call them in sequences.",
 ["hachoir/field/generic_field_set.py", "hachoir/core/dict.py"],
 [("replaceField / writeFieldsIn / reset", "hachoir/field/generic_field_set.py")],
 ["field tree after replaceField/writeFieldsIn/reset"])

prop("F06", "Seekable field sets place every field where it was sought and leave no bit uncovered",
 "In a field set whose parser may seek (forwards, backwards, by bit or byte, relative or absolute), every field covers exactly the bits at the place sought and shows the value of those bits; fields keep the order of parsing. Once finished, every bit of the set is covered: what no parsed field covers is shown as raw \"unparsed[n]\" fields, added at the end in address order, which are exactly the gaps and overlap no parsed field. Seeking before the start of the source or of the set is an error, seeking beyond the end ends the parsing, and getFieldByAddress() finds a field covering the address whatever the order of the fields.",
 ["programs", "inputs"], "all programs of reads and seeks in any direction, including to the current position and past the end",
 "Gaps and overlaps depend on the whole seek sequence; tests only parse well-formed disk images sequentially.",
 ["hachoir/field/seekable_field_set.py", "hachoir/field/generic_field_set.py"],
 [("RootSeekableFieldSet._addField/_fixLastField", "hachoir/field/seekable_field_set.py"), ("seekBit/seekByte", "hachoir/field/generic_field_set.py")],
 ["field tree of seekable sets"])

prop("F07", "Embedded data is exactly what the enclosing fields describe",
 "The stream of a field or of an embedded sub-file, the concatenation of linked fragments (for a group of fragments: of those parsed when the stream is opened), and a decompressed sub-file deliver exactly the bytes described by the enclosing fields, in order, with the right total size, independent of the order in which fragments are visited or the stream is read. A link resolves to the field it designates or reports that it is missing.",
 ["programs", "histories"], "all fragment chains (sizes, order, interleavings), sub-file sizes, and read patterns over them",
 "Chains are built lazily while reading; only particular chains and read patterns reveal skipped or repeated fragments.",
 ["hachoir/field/link.py", "hachoir/field/fragment.py", "hachoir/field/sub_file.py", "hachoir/stream/input_helper.py", "hachoir/field/field.py"],
 [("Fragment / FragmentGroup / CustomFragment", "hachoir/field/link.py"), ("SubFile / CompressedField", "hachoir/field/sub_file.py"), ("Field.getSubIStream", "hachoir/field/field.py")],
 ["getSubIStream().readBytes", "Link.value"])

prop("F08", "String fields end, decode and strip exactly as their format says",
 "A string field (zero-terminated, line-terminated, length-prefixed, fixed-size) covers exactly the bytes its format prescribes, including terminator or prefix, and its value is the decoded text (declared character set or byte order mark, truncation and stripping applied, terminator excluded). Its reported length is the number of characters (for 8-bit or unknown character sets: of the content, before truncation and stripping), and the following field starts right behind it.",
 ["inputs"], "all contents, charsets, terminators, widths, strip/truncate options and positions relative to the end of input",
 "The cross product of format, charset, options and terminator position (including multi-byte terminators at odd offsets) is not sampled by tests.",
 ["hachoir/field/string_field.py", "hachoir/stream/input.py"],
 [("GenericString", "hachoir/field/string_field.py")],
 ["GenericString.value", "size", "length"])

prop("F09", "Showing a field never fails, never changes it, and marks what is left out",
 "Asking a field for its value, display, raw display, description or place, in any order and any number of times, never raises (also when the value can't be read or an adapter fails: the answer is then empty), always gives the same answer whatever was asked before, and parses nothing more. The display is decided by the field's type and the adapters put on it, the last one first: a table (Enum, also with a key function) shows the entry of the value and leaves a value without entry to what was shown before; text and display handlers show what they make; adapters never change the value, the raw display or the size. Integers and bit fields are shown in decimal (256 bits or more by their size; hexadecimal with as many digits as the size needs), bytes and texts between quotes with control characters, quotes and characters foreign to the charset escaped, cut to the configured length and then, and only then, marked by '(...)'; paddings which hold their pattern are shown as such.",
 ["inputs", "histories"], "all field types, values, adapters, texts and orders of questions",
 "Answers are cached and some are computed from others, so a wrong one needs a particular order of questions, value or length.",
 ["hachoir/field/field.py", "hachoir/field/byte_field.py", "hachoir/field/string_field.py", "hachoir/field/enum.py", "hachoir/field/padding.py", "hachoir/field/character.py", "hachoir/core/text_handler.py", "hachoir/core/tools.py"],
 [("Field.value/display/raw_display/description", "hachoir/field/field.py"), ("Enum, textHandler, displayHandler", "hachoir/field/enum.py, hachoir/core/text_handler.py"), ("makePrintable", "hachoir/core/tools.py")],
 ["field.display", "field.raw_display", "field.description", "makePrintable"])

prop("V01", "Dates, durations and floating point fields show what their format denotes",
 "A date, duration or floating point field shows exactly the instant, span of time or number its stored bits denote, in either byte order: seconds since 1970 (up to January 2038) or 1904, tenths of microseconds since 1601 or 1582 (a 64-bit Windows count keeps its precision, to the microsecond; a UUID date that of a double, 9 microseconds at worst), durations in tenths of microseconds or milliseconds, MS-DOS dates and times (either part first; a month or day of 0 counts as 1), IEEE 754 numbers of 32, 64 and 80 bits. A stored number which denotes no possible date (after the last one, an impossible day or hour) has no value and an empty text, never another date. The displayed text is that value in calendar form, or the three most significant parts of a duration; the raw text is the stored number. Sizes, bit rates, frequencies, durations and access rights given to the text helpers are written with the right unit and rounding, and alignment helpers agree.",
 ["inputs"], "all bit patterns of every date, duration and float type at any offset and byte order; all quantities",
 "Leap years, ends of ranges, precision of large counts and rounding at unit limits are single points among 2^64 values.",
 ["hachoir/field/timestamp.py", "hachoir/field/float.py", "hachoir/core/tools.py"],
 [("timestampFactory, TimeDateMSDOS32, TimedeltaWin64", "hachoir/field/timestamp.py"), ("floatFactory", "hachoir/field/float.py"), ("timestampUNIX/Mac32/Win64/UUID60, human*", "hachoir/core/tools.py")],
 ["field.value", "field.display", "field.raw_display", "hachoir.core.tools functions"])

prop("C01", "The command line tools show exactly what the library reads, file after file",
 "hachoir-metadata prints, for every file, the facts the library extracts whose importance reaches the requested level (groups with their titles, the most important ones first, raw or readable), or its type or MIME type, each line preceded by the name of the file when there are several; a file which can't be opened, parsed or understood prints nothing on the standard output, does not keep the other files from being treated, and makes the exit status 1, which is 0 otherwise. hachoir-list prints every field of the requested part of the file in order with its nesting, type, size, and if asked description and value; it stops with a message and status 1 at the first file which can't be opened or parsed. hachoir-strip treats every file, says truly what it did and how much it removed, leaves the file itself alone and writes a new one exactly if something was removed; status 0 only if all files could be treated.",
 ["inputs", "configurations"], "all options, all combinations of good, damaged, unknown, missing and empty files, all parts of files",
 "The tools are only run by tests on one file with default options; what they print depends on every combination of options and on the other files.",
 ["hachoir/metadata/main.py", "hachoir/listtool.py", "hachoir/strip.py", "hachoir/stream/input_helper.py"],
 [("processFile, processFiles, main", "hachoir/metadata/main.py"), ("printFieldSet, openParser, main", "hachoir/listtool.py"), ("stripEditor, main", "hachoir/strip.py"), ("FileInputStream(offset, size)", "hachoir/stream/input_helper.py")],
 ["hachoir-metadata, hachoir-list, hachoir-strip: standard output, exit status, files"])

prop("D01", "The ordered field container stays consistent under any operations",
 "For any sequence of append, insert, set, replace, delete and lookup, the ordered dictionary behaves as a list of pairs with distinct keys: lookups by key, index queries and all iterations agree, order is preserved, negative and out-of-range indices follow list rules, and a refused operation (duplicate key, unknown key, bad index) changes nothing.",
 ["histories"], "all operation sequences over all small key sets",
 "Key index and value list are kept in step by hand; only sequences mixing insertions, deletions and replacements expose a stale index.",
 ["hachoir/core/dict.py"],
 [("Dict", "hachoir/core/dict.py")],
 ["Dict public methods"])

prop("E01", "An edited file is the original with exactly the requested edits",
 "Writing an editable copy of a parsed file without edits reproduces the input bit for bit. After any sequence of value changes, removals, insertions and added fields, the output is the concatenation, in the edited order, of the unchanged bits of untouched fields and the encodings of changed ones, every size and address reported before writing equals what is written, and re-reading gives the new values. (A value made of whole bytes that would begin inside a byte cannot be written: that is an error, never a wrong output.)",
 ["histories", "programs"], "all trees, all sequences of edits at any level, fields of every editable type and value range",
 "The output depends on the whole edit history and on neighbouring untouched fields; tests do two edits on two files.",
 ["hachoir/editor/fieldset.py", "hachoir/editor/typed_field.py", "hachoir/editor/field.py"],
 [("EditableFieldSet.writeInto", "hachoir/editor/fieldset.py"), ("EditableBits/Integer/String/Bytes", "hachoir/editor/typed_field.py")],
 ["EditableFieldSet.writeInto", "size", "address"])

prop("E02", "Structural edits keep order, names and refuse impossible requests",
 "An editable field set always lists, in order, the original fields minus those removed plus those inserted at the place asked for (before or after a named field, or at the end); membership, length, lookups by path, sizes and addresses agree with that list after any sequence of insertions and deletions. Referring to a missing field, inserting a duplicate name, or assigning a value outside the field's type or range is refused and changes nothing; a name that was deleted can be used again; resetting the set drops caches, never edits.",
 ["histories"], "all sequences of insertBefore/insertAfter/append/delete/assign/reset, including repeated insertions at the same place and of previously removed names",
 "Insertions are stored in a side table keyed by neighbours, so only multi-step histories at the same place reveal lost or misplaced fields.",
 ["hachoir/editor/fieldset.py"],
 [("EditableFieldSet._inserted/_deleted/insertBefore/insertAfter", "hachoir/editor/fieldset.py")],
 ["EditableFieldSet public API"])

prop("T01", "Stripping removes exactly the selected useless parts and nothing else",
 "For every supported file type and every selection of part kinds, the stripper's output is the input with exactly the fields of the selected kinds removed (or blanked where the format needs it: owner and time of tar members) and with enclosing sizes and checksummed structure kept consistent, so the output parses with the same remaining content. The kinds are: metadata (texts and time of a PNG; comments, Exif, Photoshop and Adobe segments of a JPEG; ID3 tags; the information block of an AU; INFO lists of a RIFF; owner and time of a tar), useless (JUNK, and fact in a WAVE), index (idx1 of an AVI, together with the flag announcing it); every part of a selected kind goes, not only the first. Stripping again changes nothing, and when there is nothing to strip no output is produced.",
 ["inputs", "configurations"], "all chunk sequences of each supported container and all selections of strip kinds",
 "Correct output needs every combination of chunk order, repetition, padding and selected kinds; tests strip three fixed files.",
 ["hachoir/strip.py", "hachoir/editor/fieldset.py"],
 [("RiffStripper/PngStripper/JpegStripper/...", "hachoir/strip.py"), ("stripEditor", "hachoir/strip.py")],
 ["stripper output file"])

prop("R01", "Rewriting regular expressions preserves the language they match",
 "Parsing a regular expression and combining expressions by concatenation, alternation and repetition (with all their simplifications) yields an expression whose text form matches exactly the strings the operands define under Python's regular expression semantics, and whose reported minimum and maximum lengths bound every match. Comparing, joining and optimising never alters the operands.",
 ["programs", "inputs"], "all expressions built from the operators over a small alphabet to a given depth, all words up to a given length",
 "The simplification rules are a case analysis over pairs of node kinds; tests check a list of textual results, not language equality over all combinations.",
 ["hachoir/regex/regex.py", "hachoir/regex/parser.py"],
 [("Regex.and_/or_/optimizeRepeat...", "hachoir/regex/regex.py"), ("parse", "hachoir/regex/parser.py")],
 ["str(Regex)", "minLength/maxLength"])

prop("R02", "Multi-pattern search reports what each pattern alone would match",
 "Searching data with a set of string and regular expression patterns (without anchors) reports, in increasing position and without overlap, genuine occurrences each attributed to a pattern which matches exactly there; every place where some pattern matches begins a reported match or lies inside one which begins earlier, whatever was added before or in between. Asking for the pattern of a text returns a pattern which matches the whole text, or KeyError when there is none; adding the same text twice changes nothing, and an expression without a maximum length is refused.",
 ["inputs", "programs"], "all small pattern sets and texts",
 "All patterns are merged into one optimised expression and matches are mapped back to patterns, so errors need particular pattern combinations.",
 ["hachoir/regex/pattern.py", "hachoir/regex/regex.py"],
 [("PatternMatching.search/commit", "hachoir/regex/pattern.py")],
 ["PatternMatching.search"])

prop("U01", "Sub-file search finds every embedded file once at its true place",
 "Searching data for embedded files reports, in the order of their signatures, every place which bears a registered signature its parser accepts exactly once at its true byte offset, wherever it lies relative to the internal read slices, honours the choice of parsers and the requested offset and size limits, leaves out what lies inside a file whose parser asks to skip it, and never reports a place where the parser refuses the data; only a signature which overlaps an earlier one may be missed. A saved sub-file contains exactly the reported bytes, under its own numbered name; the whole file, files over 100 MB and filtered files are not saved.",
 ["inputs", "configurations"], "all placements of embedded files in data of any size, all offset/size limits and slice alignments",
 "Data is scanned in fixed-size slices, so a signature that straddles a slice boundary, or lies at the limits, is only hit by particular placements.",
 ["hachoir/subfile/search.py", "hachoir/subfile/pattern.py", "hachoir/subfile/output.py", "hachoir/regex/pattern.py"],
 [("SearchSubfile.findMagic/mainFoot/processParser", "hachoir/subfile/search.py"), ("Output.writeFile", "hachoir/subfile/output.py")],
 ["SearchSubfile.main output", "written files"])

prop("G01", "Parser choice follows tags and validation, never a rejected parser",
 "Choosing a parser for a stream returns a candidate whose own validation accepts the data, and every candidate which the tags rank before it (tag after tag, then all others, each time in order of registration) has refused them or failed; only a parser asked for by its class or identifier is used without validation, and a fallback only when every candidate failed. When no candidate works there is no parser. A parser still open on the stream is used again if it is a candidate; apart from that the choice depends on the tags and the data only, and neither the list of parsers nor the caller's tags are altered. A parser with missing or invalid tags, or an identifier already used, is not registered.",
 ["inputs", "histories", "configurations"], "all sets of parsers, tags, validation outcomes (accept, reject, raise), file names and MIME hints, and sequences of choices",
 "Ordering, caching and error handling interact; the tests choose parsers for well-formed files only.",
 ["hachoir/parser/guess.py", "hachoir/parser/parser.py", "hachoir/parser/parser_list.py"],
 [("QueryParser", "hachoir/parser/guess.py"), ("HachoirParserList", "hachoir/parser/parser_list.py")],
 ["QueryParser.parse", "createParser", "guessParser"])

prop("M01", "Metadata registers never duplicate, invent or lose distinct values",
 "Adding values to a metadata key keeps them in order of arrival without duplicates; a text that merely extends a stored text replaces it and a text that is a prefix of a stored one adds nothing; values outside the key's declared type or range are dropped with no effect on others (texts of dates in the documented forms, track numbers and language codes are converted first; \"3/12\" also gives the track total). Lookups (has, get by index, all items, all texts) agree with what was stored; an unknown key is an error when a value is set or looked up (a default given to get() is returned instead).",
 ["histories", "inputs"], "all sequences of additions of values of all kinds to all kinds of keys",
 "De-duplication compares each new value with all stored ones, so wrong drops or duplicates need particular sequences.",
 ["hachoir/metadata/metadata_item.py", "hachoir/metadata/metadata.py", "hachoir/metadata/register.py", "hachoir/metadata/filter.py", "hachoir/metadata/setter.py"],
 [("Data.add", "hachoir/metadata/metadata_item.py"), ("Metadata.__setattr__/get/has", "hachoir/metadata/metadata.py")],
 ["Metadata public API"])

prop("M02", "Metadata export lists everything stored, once, in priority order",
 "Exporting metadata as text lists every stored value of every key whose priority is within the requested limit, exactly once, ordered by key priority, each nested group under its own heading in order of addition, and nothing else; the dictionary export lists the same keys in the same order, each with its last value, and tells groups with equal headings apart. Limits and human/raw modes only filter or format, never drop or reorder otherwise.",
 ["histories", "configurations"], "all metadata contents (keys, multiple values, nested groups with equal names), priorities, line lengths and modes",
 "Losses need multi-valued keys, equal group names or specific priority limits together.",
 ["hachoir/metadata/metadata.py", "hachoir/metadata/metadata_item.py"],
 [("Metadata.exportPlaintext/exportDictionary", "hachoir/metadata/metadata.py"), ("MultipleMetadata.addGroup", "hachoir/metadata/metadata.py")],
 ["exportPlaintext", "exportDictionary"])

prop("M03", "Metadata extraction survives damaged input and only reports true facts",
 "Extracting metadata from any input a parser accepted, including truncated or corrupted ones, never raises to the caller and always terminates. Facts stated entirely by the undamaged beginning of a document (its dimensions, depths, rates, durations, texts, the entries of an archive up to the number the quality allows, ...) are reported exactly as the document states them whatever follows, and no other value is reported for a key whose statements are all undamaged; the result is the same whichever fields were looked at, and whichever extractions of whatever quality were made, before.",
 ["fault_sequences", "inputs"], "truncation and corruption of every sample format, all extraction qualities",
 "Each format extractor touches fields that may be missing after damage; tests extract from intact files only.",
 ["hachoir/metadata/metadata.py", "hachoir/metadata/safe.py", "hachoir/metadata/image.py", "hachoir/metadata/audio.py", "hachoir/metadata/riff.py", "hachoir/metadata/archive.py", "hachoir/metadata/video.py", "hachoir/metadata/jpeg.py", "hachoir/metadata/misc.py", "hachoir/parser/"],
 [("extractors of the formats", "hachoir/metadata/*.py"), ("extractMetadata", "hachoir/metadata/metadata.py"), ("fault_tolerant", "hachoir/metadata/safe.py")],
 ["extractMetadata"])

prop("P01", "String listing reports every string of the file once at its own place",
 "Walking a parsed file for strings reports each string field of every nested level that passes the requested filters exactly once, in tree order, with its own path, address and value according to the selected output options; string fields without a value or with an empty one are left out, nothing else is; several files are listed in the order given up to the first one that can't be opened or parsed; a closed output ends the listing without error.",
 ["inputs", "configurations"], "all field trees and filter/output options",
 "Losing or duplicating an item needs nested and sibling sets in particular combinations.",
 ["hachoir/grep.py"],
 [("searchText / ConsoleGrep", "hachoir/grep.py")],
 ["grep output"])

prop("A01", "Unpacked data is what was packed",
 "The data given out for a packed or embedded file - deflated (zlib, gzip, zip, PNG, Flash), bzip2, the folders of a cabinet (stored, MSZIP, LZX) and the files cut out of them, the entries of tar, mar and ar archives - are byte for byte what was packed, however the packer arranged them (kinds of blocks, codes, matches near and far, sizes in front of or behind the data, several data blocks, any order in the file), whatever pieces are read in which order, and their size is that of the text when it is stated.",
 ["inputs", "histories"], "all texts and all ways to pack them (block kinds, code tables, match lengths and offsets, splits into data blocks), all sequences of reads",
 "Decoders fail for single entries of their tables, for matches which cross what was decoded before, or for read sizes which split a unit; samples exercise few of these.",
 ["hachoir/parser/archive/zlib.py", "hachoir/parser/archive/lzx.py", "hachoir/parser/archive/cab.py", "hachoir/parser/archive/zip.py", "hachoir/parser/archive/gzip_parser.py", "hachoir/parser/archive/bzip2_parser.py", "hachoir/parser/archive/tar.py", "hachoir/parser/archive/mar.py", "hachoir/parser/archive/ar.py", "hachoir/field/sub_file.py", "hachoir/parser/common/deflate.py", "hachoir/parser/image/png.py", "hachoir/parser/container/swf.py"],
 [("DeflateBlock / zlib_inflate", "hachoir/parser/archive/zlib.py"), ("LZXBlock / lzx_decompress", "hachoir/parser/archive/lzx.py"), ("FolderData / DataBlock", "hachoir/parser/archive/cab.py"), ("CompressedStream / CompressedField", "hachoir/field/sub_file.py"), ("Deflate", "hachoir/parser/common/deflate.py")],
 ["getSubIStream() of the fields", "zlib_inflate", "lzx_decompress"])

prop("L01", "Guards and notifications leave the process as they found it",
 "A call run under a time or memory limit returns the call's own result or exception, or the timeout/memory error when the limit is hit, and on every exit path (also when the limit is hit while the call is being set up or cleaned up, or when calls are nested) the process's alarm handler, pending timer and memory limits are what they were before. Event handlers are called once per event, those of the set before those of all sets, each in order of connection. A log message which the configuration shows reaches each enabled sink (standard error, file, callback) exactly once and with its text, and the others reach none. Parsing a file, extracting its metadata, editing or searching it leaves the process (locale, signal handlers, limits, directory, configuration, open descriptors) as it was and prints nothing on the standard output.",
 ["fault_sequences", "histories"], "all outcomes of the guarded call (return, exception, timeout, memory exhaustion), nesting, and all handler connection sequences",
 "Restoring state on error paths is invisible to tests that only look at the return value.",
 ["hachoir/core/timeout.py", "hachoir/core/memory.py", "hachoir/core/event_handler.py", "hachoir/core/log.py"],
 [("limitedTime", "hachoir/core/timeout.py"), ("limitedMemory", "hachoir/core/memory.py"), ("EventHandler", "hachoir/core/event_handler.py"), ("Log", "hachoir/core/log.py")],
 ["signal handlers, rlimits, callback calls after the guarded call"])

if __name__ == "__main__":
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(path, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")

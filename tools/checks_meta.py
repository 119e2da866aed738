TV = "TLA+ specification model-checked with TLC; traces of the real code validated against it and TLC-generated behaviours replayed"
META = {
 "S01": (TV, "model_checking", "Block cache of the pipe exhaustive on the specification (11 bytes, blocks of 2, window 2); the code is bound by replayed behaviours and random histories on every stream kind with scaled-down and real block sizes."),
 "S02": (TV, "model_checking", "Size protocol exhaustive on a 7-byte pipe with a window and two observers; code bound by replay and random histories, real operating-system pipes included."),
 "S03": (TV, "model_checking", "Buffered search exhaustive for all texts up to 8 symbols, needles up to 3, chunk 2; code bound on all model inputs up to 5 symbols, random small worlds and large texts with needles around the real buffer boundaries."),
 "S04": (TV, "model_checking", "File view protocol exhaustive on a 4-byte file; code bound by replay of every (state, operation) and random histories with several views and real block sizes."),
 "S05": (TV, "model_checking", "Bit assembly proved symbolically (all bit patterns at once) for offsets 0..23 and widths 1..96 in three orders; code bound by complete offset x width sweeps and random field programs."),
 "S06": (TV, "model_checking", "Partial-byte algorithm exhaustive for all sequences of 3 writes over 8 widths, 5 values, two orders; code bound by replay and random histories."),
 "F01": (TV, "model_checking", "Tiling proved by TLC for all two-item programs over 100 items (quick: 4 000 program/source pairs, thorough: 40 000); the code is bound by complete walks of random programs (exact tree) and of every sample file, whole and damaged."),
 "F02": (TV, "model_checking", "Every lazy access order of small nested programs exhaustively on the specification and replayed; random programs and every sample file under random access histories."),
 "F03": (TV, "model_checking", "Preservation before the cut proved by TLC for the same programs and all cuts; the code is bound by every truncation of random programs with repair on and off (exact tree) and damaged sample files (tiling, termination, fields before the cut)."),
 "F04": (TV, "model_checking", "Path and array laws proved by TLC on all trees of the small programs, from every node to every node; code bound by random path/array histories on generated and shipped parsers."),
 "F05": (TV, "model_checking", "specs Rewrite/FieldTree/HistoryTrace: every short sequence of parses, rewrites and resets on small sets (TLC) and the same plus random ones replayed on synthetic GenericFieldSets, compared after each step with the specification (fields, addresses, bits, names, events, refusals); whole trees parsed, reset and parsed again; real documents of every parser family read in another order, sub-sets reset and read again, stream of fragments included"),
 "F06": (TV, "model_checking", "Coverage proved by TLC for 2 700 seek programs x 4 sources (root) and 700 x 4 (nested); code bound by random seek programs (exact tree, random access histories, repair on and off) and shipped seekable parsers on whole and damaged samples. Sets which read their size from their own fields are not combined with seeking."),
 "F07": (TV, "model_checking", "Lazy fragment discovery and decompression loop exhaustive on the specification (chains of up to 3 fragments, any reads; 3 input bytes, any output pieces); code bound by replay and random documents (sub-files, fragment chains, fragment groups, compressed fields, links), FAT12/16/32 images, multiplexed Ogg, split PNG, gzip and bzip2 files."),
 "F08": (TV, "model_checking", "Terminator search exhaustive on the specification (all sources up to 7 bytes over 3 symbols, units of 1, 2, 4 bytes); decoding of UTF-8/16/32 specified in TLA+, 8-bit charsets by tables; code bound by random sequences of string fields in every format, charset, strip, truncation and damage."),
 "E01": (TV, "model_checking", "Editor.tla: document tree, encodings of every field kind, writing as one output stream; exhaustive edit sequences on a small document; random documents (both byte orders, nested, unaligned, all string formats) edited and written, value edits read again by the parser; unedited and structurally edited sample files."),
 "E02": (TV, "model_checking", "Editor.tla: places, names and refusals; all sequences of 2 edits of a small document (plus a third) exported by TLC and replayed on the real editor, random longer ones on random documents."),
 "T01": (TV, "model_checking", "spec/Strip.tla: documents of every supported format (RIFF/AVI/WAVE, PNG, JPEG, MP3, AU, TAR), what each level removes, the bytes written; StripMC: every small document, any sequence of levels (idempotence, order independence, nothing invented or moved, sizes re-read). Traces: generated and real documents stripped in the API, saved, re-parsed and stripped again, validated against Stripped/Bytes_."),
 "M01": (TV, "model_checking", "spec/Metadata.tla + MetaTable.tla (declared keys): normalisation, conversions (dates in every documented text form, tracks, languages), types, ranges, duplicates, prefixes; MetadataMC: every history of 3 additions over 5 kinds of keys. Traces: random additions and lookups on every key, every answer and the whole register checked."),
 "M02": (TV, "model_checking", "spec/Metadata.tla: Lines, Fields, groups and headings; MetadataMC checks the listing on every short history. Traces: registers with groups built at random and extracted from all sample files, exported as text, dictionary and str() with every kind of limit."),
 "R01": (TV, "model_checking", "RegexMC: 5648 expressions rewritten by every simplification with its side conditions, in any order and place; each exported expression parsed by the code and compared on 60 words; 1500 random histories of a pool of expressions combined by &, +, |, join, repetition and comparison"),
 "R02": (TV, "model_checking", "PatternsMC: the scan as a machine taking any match at the leftmost position, all sets of up to 2 (3) patterns and texts of 4 characters; 4000 recorded histories of adding texts and expressions, searching, asking for the pattern of a text"),
 "G01": (TV, "model_checking", "GuessMC: all choices over three parsers, verdicts and up to 2 (3) tags, with the parser open on a stream; 20000 recorded questions over the real list plus toy parsers whose verdicts are written in the data (ids, classes, categories, types, names, predicates, fallback, reuse); every sample file whole and damaged under several names against the verdict of each parser asked alone; 8000 registrations"),
 "L01": (TV, "model_checking", "TLA+ model Guards/GuardsMC: limitedTime() in small steps nested to depth 4 with a timer which may expire between any two steps, TLC; recorded calls of the real limitedTime with an expiry injected at every point where the interpreter handles a signal, of limitedMemory in a process of its own, of the log and of event handlers are validated against GuardsTrace with TLC; and parsing, metadata, editing, searching of all sample files must leave the process (locale, handlers, limits, descriptors, configuration, streams) as it was"),
 "P01": (TV, "model_checking", "specs Listing/ListingTrace: every choice of options over small trees (TLC), then planned documents and real files walked by hachoir-grep: every printed line against the strings of the tree, in tree order, with path, address, value per option; filters, percent, bits, quiet, multiple files, closed pipe"),
 "U01": (TV, "model_checking", "spec Subfile: slice-wise search of all data of 6 (thorough 8) symbols equals the definition for every slice size and range (TLC); 2187 small data, 2000 (thorough 30000) planned data up to 256 KB with signatures around the slice boundaries, and containers of real samples run through the real tool (API and command line), each reported line, saved file and statistic compared with the specification"),
 "M03": (TV, "model_checking", "spec/Facts.tla, MoreFacts.tla, MediaFacts.tla, OtherFacts.tla, AsfFacts.tla, SystemFacts.tla: 5 100 documents of 43 kinds (pictures, sounds, movies, archives, fonts, discs, programs) written as slots of bytes with the facts they state; FactsMC: reader model (any lookups, any end of the intact bytes, three qualities) exhaustive. The real extractors are run on all these documents, and on samples of them cut and with damaged bytes behind any point, in all qualities, guessed or chosen parser, before and after other lookups and extractions; what they report is validated against the facts. Every sample of the repository, damaged, for no exception, termination and independence of the history."),
 "V01": (TV, "model_checking", "Calendar and mixed-radix clock of spec/Values.tla checked day by day against an odometer (1582-1990, thorough: years 1-10000); values, displays and raw texts of about 3 000 date/duration/float fields (limits of ranges, leap days, all byte orders and offsets) and 1 000 texts of quantities validated against it."),
 "F09": (TV, "model_checking", "spec/Show.tla: what each type of field shows and how adapters stack; ShowMC: escaping and stacking laws on all texts of 3 characters and stacks of 3 adapters; 60 000 recorded answers of random fields asked in random order, and calls of the text functions, validated against it."),
 "C01": (TV, "model_checking", "Command line sessions of spec/Cli.tla model-checked over all sessions of up to 2 (thorough 4) files; standard output, exit status and new files of 450 real runs of hachoir-metadata, hachoir-list and hachoir-strip (random options; good, cut, damaged, unknown, empty and missing files) validated line by line against it."),
 "A01": (TV, "model_checking", "Bit-by-bit receivers of deflate and LZX and encoders for them (TLA+); model: what a receiver has given out is always the beginning of the encoded text and at the end all of it; the encoded texts and texts packed by zlib, bz2, tarfile are put into archives and read through hachoir, every answer is checked against the receiver"),
 "D01": (TV, "model_checking", "Exhaustive on the specification for 4 keys/4 entries; the code is bound by one replayed behaviour per (state, operation) of the 3-key model plus random histories. Trusts the recorder and TLC."),
}
NA = {}

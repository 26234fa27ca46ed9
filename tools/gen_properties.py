#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Item encoding is lossless, minimal and HID-conformant",
 "For every item kind and every value it can carry (0..2^32-1 for unsigned kinds, -2^31..2^31-1 for signed kinds), the encoded bytes are a valid HID short item: right type and tag, little-endian data of 0, 1, 2 or 4 bytes, and a standard HID decoder reads the same value back, sign included. The data field is the shortest one that holds the value (a zero takes at most one byte; End Collection, Push and Pop carry no value), and decoding the bytes with the library gives back an equal item. A value outside that range, or negative for an unsigned kind, or a fraction for a kind that carries a number (not a usage, flags or collection kind), raises an error and is never truncated.",
 ["inputs"], "all item kinds x all representable values (and the values just outside)",
 "test_item.py samples 14 (kind, value) pairs; size and sign boundaries sit at 2^7, 2^8, 2^15, 2^16, 2^31 for 27 kinds.",
 ["hrdc/stream/item.py"], [("Item.bytes size and sign selection", "hrdc/stream/item.py"), ("Item.parse", "hrdc/stream/item.py"), ("Item registry by (kind, tag)", "hrdc/stream/item.py")],
 observe=["Item.bytes()", "Item.parse()"])

prop("C02", "Byte streams are decoded exactly by the HID grammar or refused",
 "Reading any byte string either yields exactly the sequence of items the HID short-item grammar defines for it (every byte consumed once, in order, nothing dropped or invented), or raises an error. Input that ends inside an item, or that uses an item type or tag HID does not define, is always refused; a string of defined items is always accepted (except that End Collection, Push and Pop may be refused when they carry a non-zero value).",
 ["inputs"], "all byte strings (bounded length), all truncation points of item sequences, any of the three textual/binary encodings",
 "No test feeds the parsers at all; truncation points and reserved headers are never exercised.",
 ["hrdc/stream/parser/base.py", "hrdc/stream/parser/binary.py", "hrdc/stream/item.py"], [("blobParse header walk", "hrdc/stream/parser/base.py"), ("Item.parse", "hrdc/stream/item.py")],
 observe=["Parser.read() into a recording output stream"])

prop("C03", "Binary, hex and C code encodings convert into each other losslessly",
 "Converting an item stream from any of the three encodings (binary, hex, C code) to any other keeps the exact sequence of items and values, whatever the stream, and hex and code produced by the library read back to the same stream. Layout of the text - white space, line breaks, hex digit case, lower-case 0x prefixes (hex is a series of separate two-digit tokens, code a comma-separated list of C hexadecimal constants) and, for code, // and /* */ comments placed between bytes whatever their text - never changes what is read. A constant of the code that is not a byte (above 0xff, negative, not hexadecimal, or two run together for want of a comma) is refused, never cut down or left out.",
 ["inputs", "configurations"], "all item sequences x 3 input encodings x 3 output encodings x text layouts",
 "No test round-trips an encoding; layouts and comment placement combine freely.",
 ["hrdc/stream/formatter/", "hrdc/stream/parser/", "hrdc/converter.py"], [("hex tokenizer", "hrdc/stream/parser/hex.py"), ("code comment stripping", "hrdc/stream/parser/code.py"), ("formatters", "hrdc/stream/formatter/")],
 observe=["Formatter output", "Parser output"])

prop("C04", "Optimizing an item stream never changes what it means to a HID host",
 "For every well-formed item stream, a HID host interpreting the optimized stream sees the same collections and, in the same order, the same fields as in the original: same report type, report ID, bit offset, size, flags, usages, logical and physical range, unit and exponent, string and designator for every element, and the same report lengths. This holds whether usages are written short (under a usage page) or extended, one by one or as ranges, and with Push/Pop and delimiters.",
 ["inputs", "histories"], "all well-formed item sequences (global and local item state carried along the whole history)",
 "The 4 descriptor tests compile fixed trees; the passes are stateful stream filters whose interaction depends on the order and history of items.",
 ["hrdc/stream/optimizer/"], [("GlobalMerge / MainMerge / PhysicalMerge / RangeMerge / UsagePage / DesignatorUniq pass chain", "hrdc/stream/optimizer/")],
 state=[("globals", "last value of each global as seen downstream", "hrdc/stream/optimizer/global_merge.py"), ("beforeMain/mainItems/afterMain", "window of mergeable data items", "hrdc/stream/optimizer/main_merge.py"), ("current/changed", "physical range tracking", "hrdc/stream/optimizer/physical_merge.py"), ("page", "usage page in force", "hrdc/stream/optimizer/usage_page.py")],
 observe=["bytes leaving Optimizer.new(stream)"])

prop("C05", "Optimized streams carry no redundancy and optimization is stable",
 "The optimized form of a stream never restates a global value that is already in force, and a field whose list of three or more usages of one page (or strings or designators, from 1 on) is contiguous gets it as a range that stands for exactly that list; a null designator that is the only one of its item is left out. For a compiled descriptor, each run of successive single-element variable fields of one report that share all their parameters and differ only in usage, string or designator comes out as one data item; the optimized form is never longer than the unoptimized compiler output (usage pages below 0x100), and optimizing it again changes neither its length nor its meaning.",
 ["inputs", "histories"], "all descriptor trees and well-formed item streams within the bound",
 "Tests fix the optimal bytes for 4 descriptors only.",
 ["hrdc/stream/optimizer/"], [("pass chain order and precedence", "hrdc/stream/optimizer/base.py"), ("GlobalMerge", "hrdc/stream/optimizer/global_merge.py"), ("MainMerge", "hrdc/stream/optimizer/main_merge.py"), ("RangeMerge", "hrdc/stream/optimizer/range_merge.py")],
 observe=["bytes leaving Optimizer.new(stream)"])

prop("C06", "A compiled descriptor says exactly what the author declared",
 "For every descriptor tree (collections, reports, values, named arrays, padding, alignment, any nesting), a HID host interpreting the compiled stream, optimized or not, finds exactly the declared collections and fields in the declared order, each with the declared report type, report ID, size, count, flags, usages, logical and physical range, unit, exponent, string and designator. Nothing leaks from one value to the next, and physical bounds left unset equal the logical ones. Report IDs apply to exactly the subtree of their Report. Usages, report types and collection kinds mean the same given as constants or as their integer codes.",
 ["programs", "inputs"], "all descriptor trees built from the language",
 "Tests compile 4 trees with two value shapes; leakage between neighbours depends on pairs and triples of differing parameters.",
 ["hrdc/descriptor/streamer.py", "hrdc/descriptor/descriptor.py", "hrdc/stream/optimizer/", "hrdc/stream/item.py"], [("Streamer visitor", "hrdc/descriptor/streamer.py"), ("Value defaults", "hrdc/descriptor/descriptor.py"), ("optimizer chain", "hrdc/stream/optimizer/")],
 observe=["compiled bytes, with and without optimization"])

prop("C07", "Alignment and padding put every value where the author asked",
 "Within each report (report type and report ID separately), every value starts at the first bit position that is a multiple of its alignment (its own size capped at 8 bits when none is given), Align moves to the first multiple of its boundary, and Padding adds exactly its number of bits. Values follow each other with no other gap and no overlap, a value with a count takes count times its size, and the length of one report never influences the layout of another.",
 ["programs", "inputs"], "all sequences of values, paddings and alignments over sizes, counts, boundaries, report types and report IDs",
 "No test contains an Align, a Padding, a non-default alignment or two interleaved reports.",
 ["hrdc/descriptor/streamer.py", "hrdc/descriptor/descriptor.py"], [("report_size bookkeeping", "hrdc/descriptor/streamer.py")],
 state=[("report_size", "bits already placed per report type and report ID", "hrdc/descriptor/streamer.py")],
 observe=["bit offsets of fields in the compiled stream"])

prop("C08", "Decompiling a descriptor keeps its meaning",
 "For every well-formed report descriptor, compiling the tree that the decompiler extracts gives a descriptor with the same meaning to a HID host: same collections, same fields in order with the same report type, report ID, bit offset, size, flags, usages, ranges, unit, string and designator, and the same report lengths (constant fields count as padding). This includes descriptors with usages on several pages, several usage ranges, Push/Pop, interleaved report IDs, unaligned fields and named arrays. (Well-formed: data items lie inside collections, and either all of them or none use report IDs.)",
 ["inputs", "histories"], "all well-formed item streams within the bound",
 "There is no test of the decompiler at all.",
 ["hrdc/descriptor/extractor.py", "hrdc/descriptor/streamer.py"], [("Extractor state machine", "hrdc/descriptor/extractor.py"), ("reportInsert", "hrdc/descriptor/extractor.py")],
 state=[("globals/locals/usages", "HID item state table", "hrdc/descriptor/extractor.py"), ("stack/currentLevel", "open collections", "hrdc/descriptor/extractor.py")],
 observe=["Extractor.root", "recompiled bytes"])

prop("C09", "The decompiled script runs and rebuilds the same descriptor",
 "The Python text written for any descriptor tree, whether decompiled or authored, is a valid script whose execution defines a descriptor that compiles to exactly the same bytes as the tree it was written from, with and without optimization. Every usage, unit, flag, collection kind, range, alignment, count and named array in it survives the trip through text (reserved flag bits and empty named arrays excepted).",
 ["programs", "inputs"], "all descriptor trees; every named usage, unit, flag combination and collection kind",
 "There is no test of the dumper at all.",
 ["hrdc/descriptor/dumper.py", "hrdc/usage/", "hrdc/stream/item.py"], [("Dumper visitor", "hrdc/descriptor/dumper.py"), ("constant names", "hrdc/usage/")],
 observe=["text written by the dumper, executed"])

prop("C10", "Usage constants, names and numeric codes agree",
 "Every usage constant has the numeric code the HID Usage Tables assign to it, its printed name is an expression that evaluates to the same constant, looking its code up gives back the same name and code, and splitting it gives the page and usage halves of its code. Buttons and ordinals up to 127 are known by their name from the start, any other by creating it. Codes with no name survive lookup, splitting and page lookup unchanged, and looking up a named constant of one's own never displaces a name of the tables. Usage type tests (named array, selector, ...) answer the same for a constant and for its code, according to its entry in the tables, and no for a code with no name.",
 ["inputs"], "all defined usage constants, all button/ordinal numbers, all codes with no name",
 "Tests touch about 25 of about 1450 constants.",
 ["hrdc/usage/"], [("Usage registry and lookup/split", "hrdc/usage/usage.py"), ("tables", "hrdc/usage/*.py")],
 observe=["int(), str(), Usage.lookup(), Usage.split(), Usage.inpage()"])

prop("C11", "A usage range behaves like the list of its usages",
 "A usage range has the same length, the same elements by iteration and by index (negative and out-of-bounds indices included) as the list of the consecutive usages it spans, and a descriptor using the range compiles to the same bytes as one using that list. A list of two or more consecutive usages converts to the range with the same elements, and any other list is refused.",
 ["inputs"], "all ranges within the bound (including across name gaps), all indices, all lists of usages within the bound",
 "One test uses one range, only through iteration.",
 ["hrdc/usage/usage.py", "hrdc/descriptor/descriptor.py"], [("UsageRange", "hrdc/usage/usage.py")],
 observe=["UsageRange API", "compiled bytes"])

prop("C12", "Results do not depend on history, interleaving or repetition",
 "Compiling, optimizing, converting or decompiling gives the same result in every process, whatever was done before in it, however many times it is repeated, and however its steps are interleaved with those of other such operations in progress. None of these operations changes the descriptor it is given.",
 ["histories", "schedules"], "all operation sequences up to a depth; all interleavings of two pipelines fed item by item",
 "Every test builds one fresh pipeline and runs it once, to the end.",
 ["hrdc/stream/optimizer/", "hrdc/descriptor/", "hrdc/stream/parser/base.py", "hrdc/usage/usage.py"], [("per-instance pass state", "hrdc/stream/optimizer/"), ("per-instance streamer/extractor state", "hrdc/descriptor/")],
 observe=["output of each operation compared with a fresh process"])

prop("C13", "Command-line tools give the library's result in every format and I/O mode",
 "The converter, the decompiler and the compile script entry point produce, for every input format, output format, optimization switch and combination of named files and standard streams, exactly the result of the corresponding library pipeline, and exit successfully. Formats default to binary; the converter does not optimize unless asked and the compile script does unless told not to. What the library refuses (a truncated or undefined item, an unknown format, a declaration HID cannot express) makes them exit with a failure.",
 ["configurations"], "all combinations of tool, formats, switches and file/standard stream modes",
 "No test runs a command-line tool.",
 ["hrdc/converter.py", "hrdc/descriptor/compiler.py", "hrdc/descriptor/extractor.py", "hrdc/stream/formatter/binary.py", "hrdc/stream/parser/binary.py"], [("argument handling", "hrdc/converter.py"), ("format registries", "hrdc/stream/formatter/base.py")],
 observe=["process exit status, output file, standard output"])

prop("C14", "The descriptor test helper passes exactly when the bytes match",
 "The test helper that compares a descriptor with expected C code succeeds if and only if the optimized bytes of the descriptor equal the expected bytes: any changed, missing, extra or reordered byte, anywhere, makes it fail, and comments or layout in the expected text never matter.",
 ["inputs"], "all single-byte changes, removals, insertions, truncations and extensions of the expected text of the descriptors in the bound",
 "Tests only ever see it succeed.",
 ["hrdc/stream/comparer.py", "hrdc/descriptor/test.py"], [("ExpectedStream cursor", "hrdc/stream/comparer.py")],
 state=[("point", "position in the expected bytes", "hrdc/stream/comparer.py")],
 observe=["assertion raised or not"])

prop("C15", "Units are encoded as the HID specification defines them",
 "For every system and every combination of dimension exponents in -8..7, combining the unit building blocks gives the HID unit code (one nibble per dimension, two's complement exponent), exponents outside that range are refused, and each well-known unit equals the combination that defines it. A unit given by code or by name compiles to the same bytes, and its printed name evaluates back to the same code.",
 ["inputs"], "all systems x all exponent combinations (pairs exhaustively, more within the bound); all well-known units",
 "No test uses a unit.",
 ["hrdc/stream/item.py"], [("_unit_nibble and Unit", "hrdc/stream/item.py")],
 observe=["Unit.*", "Unit item bytes and text"])

prop("C16", "The C code listing describes the bytes it shows",
 "In the C code output every item takes one line, whose comment names that item and states the value its bytes encode (signed where HID says signed, usages, collection kinds and flags by their own name), indented by the number of collections open around it.",
 ["inputs"], "all item sequences within the bound; every item kind and every flag combination; every named usage",
 "Tests ignore comments.",
 ["hrdc/stream/formatter/code.py", "hrdc/stream/item.py", "hrdc/stream/parser/base.py"], [("Code formatter", "hrdc/stream/formatter/code.py"), ("Item.__str__", "hrdc/stream/item.py"), ("page tracking for names", "hrdc/stream/parser/base.py")],
 observe=["text written by the code formatter"])

prop("C17", "Declarations HID cannot express are refused",
 "Compiling, optimized or not, a tree with a parameter outside the range its HID item can carry raises an error instead of giving a descriptor that says something else: logical and physical bounds and unit exponents are signed 32 bits; units, sizes, counts, usages, string and designator indices, flags and collection kinds unsigned 32 bits; report IDs 0..255; fractions are not taken for integers in bounds, exponents, sizes, counts and indices (from 1). So does a non-constant value with neither a full logical range nor a named array. Values at either end of those ranges compile, and are the ones carried.",
 ["inputs"], "all parameters x values on and beyond both ends of their range x positions in a tree",
 "No test expects a refusal.",
 ["hrdc/stream/item.py", "hrdc/descriptor/descriptor.py", "hrdc/descriptor/streamer.py"], [("Item value encoding", "hrdc/stream/item.py"), ("Value bounds", "hrdc/descriptor/descriptor.py")],
 observe=["exception raised or not", "compiled bytes"])

prop("C18", "Decompile and compile cycles settle",
 "Decompiling a well-formed descriptor and compiling the result with optimization, then doing so again, changes nothing any more: the second cycle gives the same bytes as the first, except that padding written in several elements becomes one; once no such padding is left, which takes at most as many cycles as there are paddings, no cycle changes the bytes. This holds for descriptors of other tools as for those compiled here, optimized or not.",
 ["histories"], "all item histories and descriptor trees within the bound, three cycles each",
 "No test decompiles anything twice.",
 ["hrdc/descriptor/extractor.py", "hrdc/descriptor/streamer.py", "hrdc/stream/optimizer/"], [("Extractor", "hrdc/descriptor/extractor.py"), ("Streamer", "hrdc/descriptor/streamer.py")],
 observe=["recompiled bytes"])

prop("C19", "Trees are the sum of their members, however they were built",
 "A collection, report or top level holds exactly the members given to it and appended since, minus those popped, in order: length, iteration, indexing (negative indices and slices included) and compilation all reflect them, as if they had been given at once. Neither the list a tree was built from nor another tree built from the same members is affected, and one element used several times compiles like as many copies.",
 ["histories"], "all sequences of appends, pops and compilations up to a depth on every kind of hierarchical element",
 "Tests write every tree as one expression and compile it once.",
 ["hrdc/descriptor/descriptor.py", "hrdc/descriptor/streamer.py"], [("Hierarchical", "hrdc/descriptor/descriptor.py")],
 state=[("members", "members of a hierarchical element", "hrdc/descriptor/descriptor.py")],
 observe=["len, iteration, indexing", "compiled bytes"])

prop("C20", "Named constants compute like their codes",
 "Usages, flags, collection kinds, report types, unit systems and named constants of one's own behave as the integer they stand for in every operation they support: conversion, equality, ordering, sorting and hashing (so that constant and code are the same dictionary key), complement, | and & with the constant on either side, + and * and shifts with the constant on the left, with another constant or an integer. Sets of flags built with | and taken apart with & and ~ are those of the numbers. An operand of |, &, +, * or a shift that is neither a constant nor an integer is refused.",
 ["inputs"], "all constants, all pairs of a constant and each of a core set, all sets of flags",
 "Tests combine a handful of flags with |.",
 ["hrdc/util/named_constant.py", "hrdc/stream/item.py", "hrdc/usage/"], [("NamedConstant operators", "hrdc/util/named_constant.py")],
 observe=["results of the operators"])

prop("C21", "Command-line tools never report success for output they could not write",
 "Whenever the output of the converter, the decompiler or the compile script cannot be written in full - the device is full, a size limit is reached, the reader of a pipe is gone - whatever the byte at which writing stops, the format, and whether output goes to a named file or to standard output, the tool exits with a failure. It exits successfully exactly when the whole output has been written.",
 ["fault_sequences", "configurations"], "all bytes at which writing can stop x tools x formats x switches x output modes",
 "No test runs a command-line tool, and none lets a write fail.",
 ["hrdc/converter.py", "hrdc/descriptor/compiler.py", "hrdc/descriptor/extractor.py", "hrdc/stream/formatter/"], [("output file", "hrdc/converter.py"), ("output file", "hrdc/descriptor/compiler.py"), ("output file", "hrdc/descriptor/extractor.py")],
 observe=["process exit status", "bytes in the output file"])

prop("C22", "Any selection of optimization passes keeps the meaning",
 "Optimizer.new(stream, min, max) selects the passes whose precedence lies between two bounds. Whatever the bounds, the compiled form of a descriptor sent through the selection means to a HID host exactly what the author declared; a selection without any pass hands every item on unchanged; and cutting the chain in two at any bound between two passes (one selection feeding the other) gives the same bytes as the whole chain. For streams with usages written short, under a usage page, meaning is kept by every selection that includes the pass that reads the pages (the topmost one). The stream behind is closed exactly once.",
 ["configurations", "inputs", "histories"], "all selections of passes by bounds x descriptor trees and well-formed item streams within the bound",
 "Tests only run the whole chain, on 4 trees; what one pass may rely on from another is never taken away.",
 ["hrdc/stream/optimizer/"], [("pass selection", "hrdc/stream/optimizer/base.py"), ("each pass", "hrdc/stream/optimizer/")],
 observe=["bytes leaving Optimizer.new(stream, min, max)"])

prop("C23", "The optimized form does not depend on how a descriptor was written",
 "Optimizing while compiling gives the same bytes as compiling without optimization, writing the result in any encoding, reading it back and optimizing that. For an item stream, the optimized bytes do not depend on the encoding it is read from or written to, on the width of its data fields (4-byte usages below 0x10000 aside: they are of page 0), on whether usages are written extended or short under their page, nor (in streams without Push and Pop) on globals stated again while already in force. For a tree they do not depend on whether a default (own alignment, physical bounds equal to the logical ones) is left out or written out, named arrays are given as a range or as the same list, constants or plain codes are used, or a report (not inside another one) is given as a whole or as successive parts of the same ID.",
 ["inputs", "programs", "configurations"], "all descriptor trees and well-formed item streams within the bound x ways to write the same",
 "Tests compile 4 trees, each written one way, and never optimize what was read from a file.",
 ["hrdc/stream/optimizer/", "hrdc/stream/parser/", "hrdc/stream/formatter/", "hrdc/descriptor/streamer.py"], [("optimizer chain", "hrdc/stream/optimizer/"), ("usage page tracking of parsers", "hrdc/stream/parser/base.py"), ("Streamer visitor", "hrdc/descriptor/streamer.py")],
 observe=["optimized bytes of two ways to write the same descriptor"])

open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w").write("".join(json.dumps(p) + "\n" for p in P))

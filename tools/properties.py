#!/usr/bin/env python3
"""Writes properties.jsonl (the single source of the property texts)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


prop("P01", "A growable vector always equals the sequence its history describes",
     "After every operation of any history of construction, push, insert, splice, append, assign, remove, erase, truncate, resize, clear, reserve, copy and move, a vector's elements, size and emptiness are exactly those of the mathematical sequence that history describes, and every value an operation returns is the one that sequence determines. This holds alike for every element kind (trivial, relocatable, self-referencing, over-aligned), for every inline capacity, and across every switch between inline and heap storage. Growth and capacity requests never lose, duplicate or reorder elements, and capacity is never below size nor below what was reserved.",
     ["histories", "configurations"],
     "Every finite history of public operations on vectors and on pairs of vectors, for every element type and inline capacity.",
     "vec_test runs a few fixed sequences, almost all with one growth step; the storage switch depends on element layout, inline capacity, the operation and the position at once.",
     ["best/container/vec.h", "best/memory/ptr.h", "best/memory/allocator.h"],
     [("insert/splice/remove shifting", "best/container/vec.h insert_uninit, splice, remove, erase"),
      ("inline/heap representation", "best/container/vec.h on_heap, size, set_size, spill_to_heap")],
     ["vec public API: size(), capacity(), operator[], iteration, returned options"],
     [("size/inline size byte", "number of live elements; sign says where they are", "best/container/vec.h"),
      ("raw buffer", "inline bytes or heap pointer and capacity", "best/container/vec.h")])
prop("P02", "Container elements are constructed once and destroyed exactly once",
     "Through any history of operations on vectors and boxes, including growth, insertion, removal, copying, moving and destruction, every element object is constructed before it is used, is never used after it is destroyed or relocated away, and is destroyed exactly once. When the last container is gone no element object is left alive, and at every point in between the number of live elements is exactly the number the containers report holding.",
     ["histories", "configurations"],
     "Every history of vector and box operations, for every element type with observable construction, copy, move, relocation and destruction.",
     "The tests use one leak-counting fodder type on a few sequences; a missed or doubled destructor needs a particular operation, position and storage mode.",
     ["best/container/vec.h", "best/memory/ptr.h", "best/container/box.h"],
     [("element destruction and relocation", "best/memory/ptr.h destroy, relo, relo_overlapping, copy, move"),
      ("vector tail maintenance", "best/container/vec.h truncate, splice_within, shift_within")],
     ["constructor, assignment and destructor calls of the element type, with addresses"],
     [("slot state", "raw, live or moved-from, per element address", "element type instrumentation")])
prop("P03", "Every allocation is returned exactly once, with the layout it was made with",
     "Through any history of operations on a vector, box or text buffer that uses a given allocator, each block obtained from that allocator is returned to the same allocator instance exactly once, or resized through it, with the size and alignment it was obtained with. Blocks requested are large enough for the elements they hold, and after the owner is destroyed nothing is outstanding. Owners moved from give up their blocks and owners copied from keep theirs.",
     ["histories", "configurations"],
     "Every history of container operations over every allocator that honours the allocator protocol, stateful or not.",
     "No test uses a recording allocator; a layout mismatch or double free is invisible with the default allocator unless a sanitizer happens to look.",
     ["best/memory/allocator.h", "best/container/vec.h", "best/container/box.h", "best/text/strbuf.h"],
     [("buffer growth and release", "best/container/vec.h resize_uninit, spill_to_heap, destroy"),
      ("box release", "best/container/box.h reset, operator="),
      ("layout arithmetic", "best/memory/layout.h")],
     ["alloc/zalloc/realloc/dealloc calls on a user-supplied allocator"],
     [("outstanding blocks", "address to layout", "recording allocator")])
prop("P04", "The default allocator preserves contents, alignment and zeroing",
     "For every size and every power-of-two alignment, a block from the default allocator is aligned as asked, does not overlap any other live block, and is zeroed when zeroing was asked for. Resizing keeps the first min(old, new) bytes and the alignment, in every combination of old and new sizes and alignments, and releasing any live block in any order is safe. A request too large to be met is refused by a crash, never met by a shorter block.",
     ["histories", "inputs"],
     "Every history of alloc, zalloc, realloc and dealloc with every well-formed layout.",
     "The allocator has no test of its own; over-aligned blocks hide a cookie whose handling only matters on realloc and dealloc of such blocks.",
     ["best/memory/allocator.h", "best/memory/allocator.cc"],
     [("over-aligned block cookie", "best/memory/allocator.cc"), ("realloc", "best/memory/allocator.cc malloc::realloc")],
     ["best::malloc alloc, zalloc, realloc, dealloc"])
prop("P05", "Slicing and indexing are exact and never reach out of bounds",
     "For every size and every range given by any combination of start, end, inclusive end and count, slicing a span succeeds exactly when the range lies inside it and then yields exactly the designated elements. Otherwise the checked form reports failure as an empty optional and the asserting form stops the program; neither ever yields elements outside the span or wraps around on extreme values. The same holds for element access, prefixes, suffixes, first/last access and swapping.",
     ["inputs"],
     "Every span size (static or dynamic) and every range over the whole range of sizes, including the extremes.",
     "bounds_test and span_test sample a handful of ranges on one small array; the failing combinations are at the edges of a four-field space.",
     ["best/iter/bounds.h", "best/iter/bounds.cc", "best/memory/span.h"],
     [("range normalisation", "best/iter/bounds.h try_compute_count, compute_count"),
      ("span slicing", "best/memory/span.h operator[], at, take_first, take_last, split")],
     ["best::bounds, best::span indexing and slicing"])
prop("P06", "Searching, splitting and comparing spans agree with their definitions",
     "For every haystack, needle and element type, find and reverse find give the first and last occurrence, contains/starts-with/ends-with agree with them, prefix and suffix stripping removes exactly the match, and splitting yields pieces that, joined with the separators, give back the whole. Equality and ordering of spans are elementwise and lexicographic for every element type, signed integers and multi-byte integers included.",
     ["inputs"],
     "Every pair of spans and every element type, with and without byte-wise comparability, and every predicate.",
     "Tests search one array for one or two needles; the byte-wise fast paths differ by element width, alignment of partial matches and length.",
     ["best/memory/span.h", "best/memory/internal/bytes.h"],
     [("byte-wise search", "best/memory/internal/bytes.h search_memmem, compare, equal"),
      ("generic search", "best/memory/span.h find, split, strip_prefix")],
     ["best::span find/rfind/contains/starts_with/ends_with/strip_*/split*/==/<=>"])
prop("P07", "Sorting yields an ordered permutation and bisection finds what is there",
     "For every input sequence and every consistent order, sorting leaves a permutation of the input in that order, the stable sort keeps equal elements in their original order, and sorting by key or by comparator agrees with sorting by the induced order. On sorted input bisection reports an index holding an equal element whenever there is one, and otherwise the position where the element would keep the sequence sorted.",
     ["inputs"],
     "Every finite sequence and every total preorder on its elements; every sorted sequence and probe for bisection.",
     "span_test sorts one fixed array and bisects another; duplicates, adversarial orders and every probe position are not covered.",
     ["best/memory/span.h", "best/memory/span_sort.h", "best/memory/internal/bytes.h"],
     [("sort drivers", "best/memory/span_sort.h"), ("bisect", "best/memory/span.h bisect")],
     ["best::span sort, stable_sort, bisect"])
prop("P08", "Bulk copy, move, fill and rotation handle every overlap",
     "Copying, moving and relocating ranges of elements, filling, shifting, reversing and swapping produce exactly the values that an element-by-element copy through a temporary would, for every pair of source and destination ranges, however they overlap. No element outside the destination changes, and each element's copy, move and destruction obligations are met whether or not the element type can be moved byte-wise.",
     ["inputs", "configurations"],
     "Every size, offset and overlap, for byte-wise and non-byte-wise element types.",
     "Tests use disjoint or one fixed overlap with trivially copyable ints, where the wrong direction of copying cannot show.",
     ["best/memory/ptr.h", "best/memory/span.h"],
     [("overlapping transfers", "best/memory/ptr.h copy_overlapping, move_overlapping, relo_overlapping"),
      ("span bulk operations", "best/memory/span.h copy_from, emplace_within, shift_within, reverse, fill")],
     ["best::ptr and best::span bulk operations"])
prop("P09", "Iterator adaptors obey their laws under any interleaving of calls",
     "Iterating any composition of the provided sources and adaptors (ranges of integers, slices, map, enumerate, inspect, skip, take, rev and the rest) yields exactly the mathematically defined sequence, and stays exhausted once it is. The reported size bounds always contain the number of items still to come, and count and last agree with draining the iterator, after any number of items have been consumed.",
     ["programs", "histories"],
     "Every composition of adaptors over every source and every prefix of consumption.",
     "iter_test drains a few adaptors from the start; size bounds after partial consumption and extreme integer ranges are not looked at.",
     ["best/iter/iter.h", "best/iter/internal/iter.h", "best/iter/bounds.h"],
     [("adaptors", "best/iter/internal/iter.h"), ("integer ranges", "best/iter/bounds.h int_range")],
     ["next(), size_hint(), count(), last(), collect(), range-for"])
prop("P10", "An optional is empty or holds exactly one live value",
     "Through any history of construction, assignment, emplacement, reset, taking, inserting, copying, moving and swapping, an optional holds a value exactly when that history says so and the value is the one last put there; for value types with a niche representation, without one, for references and for void alike. Each held value is destroyed exactly once, and asking an empty optional for its value stops the program. Combinators (map, then, or, and, xor, filter, ...) call their function exactly when defined and produce the defined result.",
     ["histories", "inputs"],
     "Every history over one and two optionals, for every payload kind (plain, niche, reference, void, non-trivial).",
     "option_test visits each method once from one state; the state after a sequence of assignments between engaged and empty values is not explored.",
     ["best/container/option.h", "best/container/internal/choice.h", "best/base/niche.h"],
     [("storage with niche", "best/container/internal/choice.h"), ("assignment", "best/container/option.h operator=")],
     ["option public API; constructor/destructor calls of the payload"])
prop("P11", "A result or choice holds exactly the alternative last stored",
     "Through any history of construction, assignment, emplacement, copying and moving, a tagged union holds exactly the alternative and value last stored, reports that alternative and no other, and destroys each stored value exactly once. Accessing any alternative other than the current one is refused (an empty optional from the checked form, a stopped program from the asserting form), and matching calls exactly the handler of the current alternative. A result converts to optionals of its success and error sides consistently.",
     ["histories", "inputs"],
     "Every history over choices and results with any mix of alternatives, including duplicates, references, void and niche-packed layouts.",
     "choice_test and result_test check accessors on freshly built values; transitions between alternatives of different triviality and repeated assignment are not explored.",
     ["best/container/choice.h", "best/container/result.h", "best/container/internal/choice.h", "best/container/pun.h"],
     [("tag and storage", "best/container/internal/choice.h"), ("matching", "best/container/choice.h match"),
      ("result accessors", "best/container/result.h ok, err, operator*")],
     ["choice, result and pun public API; constructor/destructor calls of the payloads"])
prop("P12", "Comparison of composite values is a consistent lexicographic order",
     "For optionals, results, choices, rows, boxes and vectors, equality and three-way comparison agree with each other, with the documented lexicographic order over (alternative, value) or over elements, and with the comparison of a composite against a bare value. They form an equivalence and an order: reflexive, antisymmetric and transitive over any values.",
     ["inputs"],
     "Every pair and triple of composite values over comparable payloads, mixed comparisons included.",
     "Tests compare a few hand-picked pairs; laws quantify over triples and over every mixed overload.",
     ["best/container/option.h", "best/container/result.h", "best/container/choice.h", "best/container/row.h", "best/container/vec.h", "best/base/ord.h"],
     [("comparison operators", "operator== and operator<=> in each header"), ("ordering chains", "best/base/ord.h or_cmp")],
     ["operator==, operator<=>"])
prop("P13", "An owning pointer owns exactly one object through any history",
     "Through any history of construction, copying, moving, assignment (self-assignment and assignment to a moved-from box included), conversion to a type-erased interface and destruction, a box refers to the one object it owns, with the value and dynamic type it was given; copies own independent equal objects. Objects and memory are released exactly once, a moved-from box owns nothing, and arrays held by a box keep their length and contents.",
     ["histories", "configurations"],
     "Every history over boxes of plain, array and type-erased objects, for every pair of dynamic types.",
     "box_test and dyn_test build and destroy a few boxes; assignment between boxes in every pair of states and dynamic types is not covered.",
     ["best/container/box.h", "best/func/dyn.h", "best/memory/ptr.h"],
     [("copy/move assignment", "best/container/box.h operator="), ("type-erased copy and destroy", "best/func/dyn.h, best/func/internal/dyn.h")],
     ["box and dyn_box public API; constructor/destructor calls of the payload; allocator calls"])
prop("P14", "Tuple rearrangement keeps every element, in the specified place",
     "Selecting, slicing, pushing, inserting, removing, splicing, scattering, gathering, joining and applying over a row produce rows whose elements are exactly those the operation's definition designates, by position and by key, with their value categories preserved. A row and its rearrangements never duplicate or drop an element, and field access by index, by type and by key agree.",
     ["programs", "inputs"],
     "Every row shape and every index or bounds argument of the operations.",
     "row_test checks one or two instances per operation; positions and widths interact in each.",
     ["best/container/row.h", "best/container/internal/row.h", "best/meta/tlist.h"],
     [("index arithmetic of splice, scatter and gather", "best/container/internal/row.h, best/container/row.h"),
      ("type list slicing", "best/meta/tlist.h")],
     ["row public API on concrete shapes"])
prop("P15", "Decoding text inverts encoding and rejects everything else",
     "For every supported encoding, every code point the encoding admits encodes to the standard code-unit sequence and decodes back to itself, and every code point it does not admit is refused. Every code-unit sequence that does not begin (or, decoding backwards, end) with the standard encoding of an admissible code point is reported as an error, without reading outside the buffer, and decoding forwards and backwards visit the same boundaries.",
     ["inputs"],
     "Every code point and every code-unit sequence, truncated and malformed ones included, in UTF-8, WTF-8, UTF-16, UTF-32, ASCII and Latin-1.",
     "utf_test covers a few valid strings; malformed input is an infinite space with many distinct failure classes.",
     ["best/text/utf8.h", "best/text/utf16.h", "best/text/utf32.h", "best/text/ascii.h", "best/text/internal/utf.h", "best/text/encoding.h", "best/text/rune.h"],
     [("UTF-8 decode/undecode", "best/text/internal/utf.h decode8, undecode8"),
      ("UTF-16 decode/undecode", "best/text/internal/utf.h decode16, undecode16")],
     ["rune::encode, rune::decode, rune::undecode and the encodings' own functions"])
prop("P16", "Text is accepted exactly when it is validly encoded",
     "Checked construction of text from code units succeeds exactly when the units are a concatenation of standard encodings of admissible code points, and iterating accepted text yields exactly those code points, forwards and backwards, with their offsets. For unchecked views over arbitrary units, iteration terminates, never reads outside the view, covers it exactly, and yields replacement characters only for ill-formed parts.",
     ["inputs"],
     "Every sequence of code units in every encoding.",
     "str_test accepts a few valid strings; overlong, truncated, surrogate and out-of-range sequences and their positions are not covered.",
     ["best/text/str.h", "best/text/utf8.h", "best/text/internal/utf.h", "best/text/encoding.h"],
     [("fast UTF-8 validation", "best/text/internal/utf.h validate_utf8_fast"), ("rune iteration", "best/text/str.h runes, rune_indices, rune_iter")],
     ["text::from, runes(), rune_indices(), rune_count()"])
prop("P17", "Text search, splitting and stripping work on code points in any encoding",
     "Finding, testing for, stripping and splitting by a string, a code point or a predicate give the positions and pieces defined on the sequence of code points, for every combination of encodings of the text and the pattern; a match never begins or ends inside a code point. Pieces of a split, rejoined with the separators, give the original text, and slicing at a position that is not a boundary is refused.",
     ["inputs"],
     "Every text and every pattern, in every pair of encodings.",
     "Tests use short ASCII samples in one encoding; the cross-encoding paths have their own loops.",
     ["best/text/str.h"],
     [("cross-encoding search", "best/text/str.h find, rfind, starts_with, strip_prefix, split, splits"),
      ("boundary checks", "best/text/str.h at, operator[], is_rune_boundary")],
     ["pretext and text search, strip, split and slicing"])
prop("P18", "Text compares by code points whatever the encoding",
     "Two texts are equal exactly when they contain the same code points, and ordered lexicographically by code point, for every pair of encodings and for text against a single code point. Equality and ordering agree and form a total order on valid text.",
     ["inputs"],
     "Every pair of texts in every pair of encodings.",
     "Only equality of identical ASCII strings is exercised; UTF-16 unit order and byte order differ from code-point order only beyond the basic plane or on wide units.",
     ["best/text/str.h", "best/text/encoding.h", "best/text/utf16.h"],
     [("same-encoding shortcut", "best/text/str.h same_encoding_code, operator==, operator<=>")],
     ["operator==, operator<=> on pretext, text, textbuf and rune"])
prop("P19", "A text buffer always holds validly encoded text",
     "Through any history of pushing text and code points in any encoding, truncating, clearing, reserving, converting, copying and moving, a text buffer's content is validly encoded and equals the concatenation that history describes. Operations that cannot be represented in the buffer's encoding report failure (or substitute, in the lossy forms) without leaving partial or invalid content behind.",
     ["histories", "configurations"],
     "Every history over buffers in every encoding with input in every encoding.",
     "strbuf_test pushes a few strings; failures part way through a transcoding push and positions inside a code point are not covered.",
     ["best/text/strbuf.h", "best/text/str.h", "best/text/rune.h"],
     [("transcoding push", "best/text/strbuf.h push, push_lossy, transcode, from"), ("boundary checks", "best/text/strbuf.h truncate, operator[], at")],
     ["textbuf public API"])
prop("P20", "Code point classification, digits and escapes follow Unicode and radix rules",
     "Construction from an integer admits exactly the Unicode scalar values (plus surrogates in the permissive form); classification, digit conversion in every radix and ASCII case mapping agree with their definitions over the whole code space, and digit conversions invert each other. The escaped form of any code point is printable ASCII or the character itself, and denotes that code point unambiguously.",
     ["inputs"],
     "Every integer as a code point, every radix and digit.",
     "rune_test samples a few characters per class.",
     ["best/text/rune.h", "best/text/internal/rune.h"],
     [("range checks and classes", "best/text/rune.h"), ("digit conversion", "best/text/rune.h to_digit, from_digit")],
     ["rune public API"])
prop("P21", "Format templates are parsed as written and arguments are matched exactly",
     "For every template, literal text and escaped braces are copied verbatim and each placeholder is replaced by the argument its explicit or implicit index designates, formatted with exactly the options it spells (forwarding, fill, alignment, alternate form, zero padding, width, precision, method, debug). Unnumbered placeholders take the arguments in order, whatever numbered ones stand between. Malformed templates, placeholders without a matching argument and options the argument's type does not support are refused when the program is compiled rather than misformatted, and reading a template never goes outside it or the argument list.",
     ["programs", "inputs"],
     "Every template string and argument list.",
     "format_test formats a dozen templates; the template grammar is a language with combinations of options and malformed members.",
     ["best/text/format.h", "best/text/format.cc", "best/text/internal/format_parser.h", "best/text/internal/format_impls.h"],
     [("template parser", "best/text/internal/format_parser.h visit_template"), ("argument matching", "best/text/internal/format_parser.h validate"), ("argument table", "best/text/format.cc format_impl")],
     ["best::format, format_spec"])
prop("P22", "Formatted integers, characters and strings denote the value, in the asked form",
     "For every integer of every width in every radix, the formatted digits denote exactly that value, with the sign, prefix, fill, alignment, width and zero padding asked for. Debug-formatted strings and characters are quoted and escaped so that the original can be read back, precision truncates strings by code points, and padding counts code points.",
     ["inputs"],
     "Every integer of every type, every string, and every combination of options.",
     "format_test prints a few small integers; the extremes of each type and option combinations are not covered.",
     ["best/text/format.h", "best/text/format.cc", "best/text/internal/format_impls.h", "best/text/rune.h"],
     [("integer formatting", "best/text/internal/format_impls.h"), ("padding", "best/text/format.cc compute_padding")],
     ["best::format with integer, rune, string, bool and pointer arguments"])
prop("P23", "Structured debug output nests and indents correctly",
     "For any nesting of lists, tuples, records and alternatives, with or without the alternate form, debug output has balanced delimiters and separators in the right places, each item appears exactly once and in order, and in the alternate form each nested line is indented by its depth. Formatting of optionals, results, choices, rows, spans and vectors is the composition of the formatting of their parts.",
     ["inputs", "programs"],
     "Every value tree over the structured kinds, empty and multi-line parts included, in both forms.",
     "Tests print flat lists and one struct; line breaking inside nested values needs depth and embedded newlines.",
     ["best/text/format.h", "best/text/format.cc", "best/text/internal/format_impls.h", "best/container/option.h", "best/container/result.h", "best/container/choice.h", "best/container/row.h"],
     [("indenting writer", "best/text/format.cc formatter::write, update_indent"), ("block builder", "best/text/format.cc block::entry, finish")],
     ["best::format of structured values"])
prop("P24", "Ordering chains evaluate lazily and return the first difference",
     "Combining three-way comparisons lexicographically yields the first non-equal outcome, evaluates a later comparison only when every earlier one was equal, and keeps the ordering's strength; the strength of a combination is the weakest among its parts however many there are, and the named outcomes convert to exactly the outcome they name, unordered included. Generic equality and comparison helpers agree with the operators of the compared types, treat distinct pointer types by address, and report inequality or unordered when there is no comparison.",
     ["inputs", "programs"],
     "Every sequence of comparison outcomes of every ordering category.",
     "ord_test tries a handful of chains; laziness and unordered outcomes in each position are not covered.",
     ["best/base/ord.h", "best/base/internal/ord.h"],
     [("chain operator", "best/base/internal/ord.h"), ("generic compare", "best/base/ord.h equal, compare")],
     ["best::or_cmp, best::compare, best::equal, best::Less..Unordered"])
prop("P25", "Overflow-tracking, saturating and dividing arithmetic is exact",
     "For every pair of integer types and values, tracked arithmetic returns the exact mathematical result reduced to the common type together with a flag that is set exactly when it did not fit or an operand was already flagged; saturating arithmetic returns the nearest representable value. Division truncates, ceiling division rounds up, both refuse zero divisors, and the wrapping, checked and strict views of a result return it, refuse it or stop the program accordingly. Conversions between widths flag exactly the values that do not fit.",
     ["inputs"],
     "Every pair of integer types and every pair of values.",
     "overflow_test samples a few int cases; mixed widths and signs and the type extremes are a large space of corner cases.",
     ["best/math/overflow.h", "best/math/int.h"],
     [("tracked operators", "best/math/overflow.h"), ("saturation", "best/math/overflow.h saturating_add, saturating_sub, saturating_mul")],
     ["best::overflow, best::div, best::ceildiv, best::saturating_*"])
prop("P26", "Bit operations, integer comparisons and casts are exact for every type",
     "For every integer type and value, bit counting, shifting (oversized amounts included), rotation, power-of-two rounding and bit-width computation return what their definitions on the two's-complement word say, and overflow in rounding up is reported by the form used. Comparing integers of different types is exact, casts succeed exactly when the value fits, and minimum and maximum return the right operand.",
     ["inputs"],
     "Every integer type and value, and every pair of types.",
     "bit_test and int_test sample a few values of int-sized types.",
     ["best/math/bit.h", "best/math/int.h", "best/math/internal/common_int.h"],
     [("bit tricks", "best/math/bit.h"), ("mixed comparison", "best/math/int.h int_cmp, int_fits, checked_cast")],
     ["free functions of best/math/bit.h and best/math/int.h"])
prop("P27", "Parsing an integer yields exactly the number written or an error",
     "For every string in any encoding, every radix up to 36 and every integer type, parsing succeeds exactly when the string is an optional sign followed by one or more digits of that radix denoting a value of that type, and then yields that value. Radix prefixes select the radix they name, a separately supplied sign is honoured, and radixes above 36 stop the program.",
     ["inputs"],
     "Every string, radix and integer type.",
     "conv_test parses a few decimal and hexadecimal numbers; the fast path's length bound and each type's extremes in each radix are not covered.",
     ["best/math/conv.h", "best/text/rune.h"],
     [("digit loop with overflow detection", "best/math/conv.h atoi_with_sign"), ("prefix detection", "best/math/conv.h atoi_with_prefix")],
     ["best::atoi, best::atoi_with_sign, best::atoi_with_prefix"])
prop("P28", "Command-line arguments are assigned to exactly the flags they spell",
     "For every flag declaration and argument vector, parsing gives each argument to the flag or positional that the documented syntax says: long names and aliases (with - and _ interchangeable), letters and runs of letters, values attached with = or taken from the next argument, and everything after -- as a positional. Values are parsed as their type requires (booleans, integers with a radix prefix, runes, well-encoded text); a repeated field collects all of them in order, and everything not mentioned keeps its default. Unknown flags, missing values, unparsable values, extra positionals and flags or positionals that occur more or less often than declared are fatal errors; --help and -h give the usage as a non-fatal error. No argument is silently dropped or used twice.",
     ["inputs", "configurations"],
     "Every declaration of flags and positionals and every argument vector.",
     "cli_test parses a few command lines of one fixed declaration; the syntax is a language with interacting ambiguities.",
     ["best/cli/parser.cc", "best/cli/parser.h", "best/cli/cli.h", "best/cli/cli.cc"],
     [("token interpretation", "best/cli/parser.cc"), ("count enforcement", "best/cli/parser.cc"), ("values", "best/cli/parser.h BestFromArgv")],
     ["best::parse_flags on reflected structs"])
prop("P29", "Subcommands, groups and required arguments are enforced at every level",
     "An argument that names a subcommand of the current command switches to it for good: from then on, flags and positionals are those of that command and of its groups. The flags of a group are reached by its name and a dot, by its name or letter and the next argument, or by its letter as a prefix, at any depth of nesting; a group with neither name nor letter is flattened into its parent. Parsing succeeds only if every required flag and positional of every command on the selected path has been supplied, and counts are judged per field, however it was spelled. Deleted names are unknown. Asking for help within a subcommand or group gives the usage of that subcommand or group.",
     ["inputs", "configurations"],
     "Every tree of subcommands and groups and every argument vector.",
     "cli_test has one subcommand case; nesting and missing required arguments below the top level are not covered.",
     ["best/cli/parser.cc", "best/cli/parser.h", "best/cli/cli.h"],
     [("subcommand switch", "best/cli/parser.cc"), ("group lookup", "best/cli/parser.cc push_group"), ("required check", "best/cli/parser.cc")],
     ["best::parse_flags on reflected structs with subcommands and groups"])
prop("P30", "Callable references, taps and deferred actions run exactly as defined",
     "Calling through a function reference or type-erased callable invokes the referenced callable once with the given arguments and returns its result, whatever kind of callable it is and whether or not it ignores the arguments. A deferred action runs exactly once, at scope exit or when run early, and not at all when cancelled. Applying a tap to a value calls the wrapped function once on that value and yields what the tap's definition says.",
     ["programs", "histories"],
     "Every kind of callable, and every history of run, cancel and scope exit.",
     "Each kind is tested once.",
     ["best/func/fnref.h", "best/func/defer.h", "best/func/tap.h", "best/func/call.h", "best/func/dyn.h"],
     [("callable erasure", "best/func/internal/fnref.h"), ("deferred action", "best/func/defer.h"), ("tap composition", "best/func/tap.h")],
     ["fnref, defer, tap, best::call, dyn"])
prop("P31", "Layouts are those of the types they describe and overflow is refused",
     "A layout computed for a type, array, struct or union has the size and alignment the language gives that type; array layouts over any element layout and count are exact, and sizes that would overflow are refused rather than wrapped. A layout fits in another exactly when neither its size nor its alignment is greater.",
     ["inputs"],
     "Every list of member types and every element layout and count.",
     "layout_test compares a few types.",
     ["best/memory/layout.h", "best/memory/internal/layout.h"],
     [("struct/union layout", "best/memory/internal/layout.h"), ("array layout", "best/memory/layout.h array")],
     ["best::layout"])
prop("P32", "System error codes map to their own names and messages",
     "For every positive error number, the error object reports that number, the symbolic name and message of exactly that error if the platform defines one and nothing otherwise, and compares by number. Non-positive numbers are refused.",
     ["inputs"],
     "Every integer.",
     "There is no test for it.",
     ["best/io/ioerr.h", "best/io/ioerr.cc", "best/io/errnos.inc"],
     [("error table lookup", "best/io/ioerr.cc")],
     ["best::ioerr"])
prop("P33", "Reflection describes exactly what was declared",
     "For every reflectable struct or enum, reflection gives its own name, path and parameters, and its fields or values in the order declared, each with its own name, type and identity, as modified by its BestReflect: inferred items first, items added or hidden, tags attached to the item or type they were given for and found by their type or key. Matching a name or value calls the case for exactly that item, or the one for nothing; field access through an item yields the very member with the value category and constness of the object; fields() and zip_fields() visit all shown fields in order; debug formatting shows the type's name and its items. Types that cannot be reflected are reported as not reflected.",
     ["programs", "inputs"],
     "Every struct of up to 64 fields and every enum, wherever declared, and every BestReflect built of infer, with and hide.",
     "reflect_test uses a handful of types in one namespace; each type is a program of its own.",
     ["best/meta/reflect.h", "best/meta/names.h", "best/meta/internal/reflect.h", "best/meta/internal/names.h"],
     [("names cut out of the compiler's spelling", "best/meta/names.h and best/meta/internal/names.h"), ("field counting and binding", "best/meta/internal/reflect.h"), ("match, each, apply, tags", "best/meta/reflect.h")],
     ["best::reflect, best::type_names, best::field_name, best::value_name, best::fields, best::zip_fields"])
prop("P34", "A guard returns early exactly on failure and leaves successes alone",
     "BEST_GUARD() evaluates its operand exactly once. If the operand holds a value, nothing happens to it, even if it was given to be moved from, and the function goes on with the next statement; if it does not, the function returns at once: an empty option from an option, and from a result its error, moved if the operand may be moved from and otherwise copied once, as changed by whatever follows the guard and converted to the function's error type. The guard is a single statement wherever a statement may stand, and returns from the innermost function only.",
     ["programs", "inputs"],
     "Every kind of option and result as operand and return type, every value category, and every place of a guard among statements.",
     "guard_test returns a few values from one or two functions; copies, moves and evaluation counts are not looked at.",
     ["best/base/guard.h", "best/container/result.h", "best/container/option.h"],
     [("the macro and its helper", "best/base/guard.h"), ("residuals", "best/container/result.h BestGuardResidual, BestGuardReturn"), ("options", "best/container/option.h BestGuardReturn")],
     ["BEST_GUARD"])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")

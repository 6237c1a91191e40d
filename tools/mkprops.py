#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (one place to edit the texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

LANGS = ["src/lang/rust.rs", "src/lang/java/mod.rs", "src/lang/csharp/mod.rs", "src/lang/js.rs", "src/lang/python.rs",
         "src/lang/go.rs", "src/lang/c.rs", "src/lang/dart/mod.rs", "src/lang/swift.rs", "src/lang/nix.rs"]

p("C01", "Successful formatting delivers exactly the document, however the writer acts",
  "Formatting any well-formed token stream into a writer that eventually accepts all data (in full or partial writes, interrupted, cut inside a character, or slow) succeeds after a bounded number of writes and delivers exactly the document the stream denotes: import preamble, text, spaces, line breaks, indentation and quoting, once each and in order. The string, list-of-lines, fmt::Write and io::Write outputs agree for the same stream and configuration.",
  ["inputs", "configurations", "fault_sequences"],
  "Every well-formed stream of every bundled language, the unit language and custom languages; every indentation/newline configuration; every sequence of short, split and interrupted writes.",
  "The tests format a few dozen fixed streams into in-memory strings that never short-write, are never interrupted and never see deep indentation, so neither the write loop nor the whitespace machinery is exercised under a realistic writer.",
  ["src/fmt/formatter.rs", "src/fmt/io_writer.rs", "src/fmt/fmt_writer.rs", "src/fmt/vec_writer.rs", "src/tokens/tokens.rs"] + LANGS,
  [("pending whitespace is realised only before content", "src/fmt/formatter.rs flush_whitespace"), ("write_all loops over short and interrupted writes", "src/fmt/io_writer.rs"), ("quote/eval frames", "src/fmt/formatter.rs format_cursor")],
  ["bytes received by the io::Write / fmt::Write", "to_string", "to_file_string", "to_vec", "to_file_vec"],
  [("pending whitespace", "line breaks and spaces not yet written", "src/fmt/formatter.rs Formatter"), ("indent", "current indentation level", "src/fmt/formatter.rs Formatter")])

p("C02", "A failure while formatting is reported and stops the output",
  "If the writer, a language item or a language hook fails at any point while a stream is being formatted, the call returns an error: never success, a panic or a hang. What the writer received until then is a prefix of the document a fault-free run delivers, and nothing more is written after the failure.",
  ["fault_sequences", "inputs", "configurations"],
  "Every position of the failing write, item or hook in every document; error kinds incl. full disk, broken pipe, zero-length writes and fmt errors; all languages and writers.",
  "No test ever makes a writer or a language item fail; the error paths of every write call, hook and preamble are unexercised.",
  ["src/fmt/formatter.rs", "src/fmt/io_writer.rs", "src/fmt/fmt_writer.rs", "src/lang/mod.rs"] + LANGS,
  [("? on every write", "src/fmt/formatter.rs, src/lang/*"), ("io errors mapped to fmt::Error", "src/fmt/io_writer.rs")],
  ["return value of format / format_file", "log of writer calls"])

p("C03", "Formatting never changes the stream; a failed attempt leaves no trace",
  "A token stream can be formatted any number of times and always yields the same document. An attempt that fails, is cancelled or crashes part-way, including by running out of memory, changes neither the stream nor the outcome of any later attempt with any stream, and a retry into a fresh writer delivers the complete document.",
  ["crash_points", "fault_sequences", "histories"],
  "Every crash, error or allocation-failure point in every attempt, and every sequence of such attempts followed by retries.",
  "Tests format each stream once, successfully; nothing interrupts a formatting call and tries again.",
  ["src/fmt/formatter.rs", "src/fmt/mod.rs", "src/tokens/tokens.rs"] + LANGS,
  [("formatting borrows the stream immutably; all state is per call", "src/fmt/formatter.rs, src/tokens/tokens.rs"), ("nested quotes are buffered in a per-call string", "src/fmt/formatter.rs quoted_quote")],
  ["equality/iteration of the stream before and after", "bytes of later attempts"])

p("C04", "Concurrent and re-entrant generators do not influence each other",
  "Streams may be built, cloned, edited and formatted by several threads at the same time, and a writer or language item may itself build and format other streams while it is being called. Under every interleaving each generator produces exactly the document it produces alone, no generator blocks another forever, and editing a clone never affects the original.",
  ["schedules", "histories"],
  "Every interleaving of the threads' writer calls, callbacks and allocations, and every nesting of generators inside callbacks.",
  "The test-suite never shares or clones a stream across threads nor re-enters the library from a callback; interleavings are outside what example tests control.",
  ["src/tokens/tokens.rs", "src/tokens/item.rs", "src/tokens/item_str.rs", "src/fmt/formatter.rs", "src/fmt/mod.rs", "src/lang/mod.rs"] + LANGS,
  [("no global or thread-local mutable state", "whole crate"), ("streams own their items", "src/tokens/tokens.rs, src/tokens/item.rs")],
  ["bytes per generator", "stream equality"])

p("C05", "Generated files are reproducible byte for byte",
  "The same stream formatted with the same configuration yields the same bytes whatever the process, thread, environment, working directory, clock, memory addresses, hash seeds and earlier activity of the process. This covers the import preamble of every language, for streams built through any mix of owned and static strings.",
  ["configurations", "histories", "schedules"],
  "Every combination of hash seed, address layout, clock value, environment, thread and preceding work.",
  "Tests compare against literals in one process with one environment and few imports, so an order that depends on a hash seed, an address or history can pass.",
  ["src/lang/mod.rs"] + LANGS + ["src/tokens/item_str.rs"],
  [("imports are collected in ordered maps/sets", "src/lang/*"), ("no environment, time or randomness is consulted", "whole crate")],
  ["bytes of format_file in differing environments"])

p("C06", "The import preamble is complete, minimal and independent of assembly order",
  "For every bundled language the generated file declares each import its stream uses or registers exactly as that language and the configuration require, each declaration once, in a canonical order, and declares nothing else; every imported name is rendered the way the language refers to that declaration (avoiding clashes between different modules by aliases or qualification is the caller's choice, except in Java and C#). The result depends only on the set of imports in the stream: not on the order in which fragments were produced or delivered, how often each was included, or how it was appended.",
  ["histories", "schedules", "inputs", "configurations"],
  "Every delivery order, duplication and re-delivery of fragments from any number of producers, for all kinds of imports (aliased, qualified, default, wildcard, system, scoped, ...) and configurations.",
  "Tests use one or two imports per language in one fixed order; combinations, duplicates and permutations are not covered.",
  ["src/tokens/tokens.rs", "src/tokens/register.rs"] + LANGS,
  [("ordered sets of imports per module", "src/lang/*::imports"), ("walk over the registered items", "src/tokens/tokens.rs walk_imports")],
  ["to_file_string / format_file output"])

p("C07", "Same-named types from different packages are never confused",
  "In a generated Java or C# file every occurrence of an imported type resolves, by the language's own name rules, to the package or namespace it was imported from, no matter which equally named types from other packages, the file's own package or the implicitly imported one occur in the same file. Which type gets the short name does not depend on the order in which the file was assembled.",
  ["inputs", "histories", "configurations"],
  "Every multiset of same-named types over packages (incl. own and implicit ones), every assembly order, duplicates and configuration.",
  "One test per language uses a single pair of conflicting names in one order.",
  ["src/lang/java/mod.rs", "src/lang/csharp/mod.rs"],
  [("first-come table of imported simple names", "src/lang/java/mod.rs imports, src/lang/csharp/mod.rs imports"), ("qualification decision when rendering", "Import::format in both files")],
  ["to_file_string / format_file output"])

p("C08", "Walking imports yields exactly the imports present, after any history",
  "After any history of appending, registering, extending, collecting, cloning and nesting streams - including steps interrupted by a panic - walking the imports of a stream yields every imported or registered item in that stream exactly once per occurrence and nothing else, and terminates.",
  ["histories", "crash_points"],
  "Every history of building steps and every point at which a step may be interrupted.",
  "One unit test walks two imports of a stream built by one quote; histories with merges, whitespace coalescing, re-use and interruptions are not tested.",
  ["src/tokens/tokens.rs", "src/tokens/internal.rs", "src/tokens/register.rs", "src/macros.rs"],
  [("linked list of language items inside the stream", "src/tokens/tokens.rs lang_item, lang_item_register, WalkImports"), ("items are re-linked when moved between streams", "src/tokens/tokens.rs item, extend")],
  ["Tokens::walk_imports"], [("last_lang_item", "head of the in-stream list of language items", "src/tokens/tokens.rs Tokens")])

p("C09", "Streams keep their structural guarantees through any interrupted history",
  "However a stream is built - operation by operation, by extending, collecting, interpolating or cloning, and even if a step panics half-way - spaces, line breaks and indentation stay coalesced as documented, the stream holds exactly what some prefix of the interrupted step would have put there on top of everything before it, and further use behaves as for a stream built without interruption. Streams with the same content compare, order and hash as equal, and iterating a stream yields its items under legal size hints.",
  ["histories", "crash_points", "inputs"],
  "Every history of building operations, every split of it over extend/collect/append/nesting, and every interruption point.",
  "Tests check a handful of fixed short sequences and never interrupt building.",
  ["src/tokens/tokens.rs", "src/tokens/format_into.rs", "src/tokens/item.rs", "src/tokens/item_str.rs"],
  [("space/push/line/indentation coalesce against the tail", "src/tokens/tokens.rs"), ("extend and collect add one item at a time", "src/tokens/tokens.rs extend, from_iter")],
  ["Tokens::iter / into_iter, ==, cmp, hash, formatted output"])

p("C10", "Quoted templates evaluate interpolations exactly once, in order and lazily",
  "Executing a quote evaluates each interpolated expression, iterator, condition, match, binding and scope that control flow reaches exactly once and in source order, evaluates nothing that is not reached, emits joins only between elements, and emits the text around them in order. If an interpolation panics or leaves the template early (?, return, break), the target stream holds exactly the content preceding that point and stays usable.",
  ["fault_sequences", "programs", "inputs"],
  "Every outcome of the interpolated expressions - including failing or leaving at any evaluation point - for templates covering the macro's constructs and nestings.",
  "Tests only compare final streams of succeeding templates whose interpolations have no side effects; evaluation count, order, laziness and abrupt exits are unobserved.",
  ["genco-macros/src/encoder.rs", "genco-macros/src/quote.rs", "genco-macros/src/string_parser.rs", "genco-macros/src/static_buffer.rs", "genco-macros/src/quote_in.rs", "genco-macros/src/quote_fn.rs"],
  [("statement-by-statement encoding with flushes of static text", "genco-macros/src/encoder.rs"), ("peekable join loop", "genco-macros/src/encoder.rs encode_repeat")],
  ["event log of probes inside interpolations", "resulting stream"])

p("C11", "Any well-behaved iterator is an acceptable source of content",
  "Wherever content is drawn from a caller's iterator (extending, collecting, loops and joins in quotes, comment helpers) the stream gets exactly the yielded elements in order, for every legal size hint, for iterators that are not fused, and for iterators that fail or re-enter the library. The iterator is polled only as needed - never again after it ended - and memory use follows what it yields, not what its upper size bound permits.",
  ["inputs", "fault_sequences", "histories"],
  "Every legal size hint (loose, absent, huge), element count, fuse behaviour and failure point of the source iterator, under a bounded memory budget.",
  "Tests only pass vectors and arrays, whose size hints are exact and which are fused.",
  ["src/tokens/tokens.rs", "src/tokens/format_into.rs", "src/lang/java/block_comment.rs", "src/lang/csharp/comment.rs", "src/lang/csharp/block_comment.rs", "src/lang/dart/doc_comment.rs", "genco-macros/src/encoder.rs"],
  [("reserve from size_hint then add item by item", "src/tokens/tokens.rs extend, from_iter"), ("peekable join loop", "genco-macros/src/encoder.rs encode_repeat")],
  ["resulting stream", "poll log of the iterator", "allocation sizes"])

p("C12", "No token stream makes formatting panic, abort or hang",
  "Formatting any sequence of items a caller can put into a stream - unbalanced, misplaced or deeply nested quotes and evaluations, extreme or negative indentation, empty strings - ends with success or an error after work bounded by the stream's size, and never panics, aborts or hangs, in any language, configuration and writer, with or without writer faults.",
  ["inputs", "fault_sequences", "configurations"],
  "Every item sequence incl. malformed ones, combined with every fault position.",
  "Malformed streams and extreme indentation are not tested at all.",
  ["src/fmt/formatter.rs", "src/fmt/cursor.rs", "src/tokens/tokens.rs"] + LANGS,
  [("illegal states return fmt::Error", "src/fmt/formatter.rs format_cursor"), ("frame stack for quotes and evaluations", "src/fmt/formatter.rs")],
  ["outcome of format / to_string / to_vec"])

p("C13", "A document may be formatted piece by piece through one formatter",
  "Formatting a stream in several calls on one formatter, cut anywhere outside a quoted string and possibly mixed with direct text writes, delivers the same bytes as formatting it in one call: pending spaces, line breaks and the indentation level carry over, and whitespace that precedes no content is never written. A formatter may also be given several streams or whole files in a row: each file ends with one line break, drops the whitespace pending then, and keeps the indentation. Different sessions and writers do not affect each other.",
  ["histories", "schedules", "fault_sequences"],
  "Every set of cut points, every interleaving of several sessions on different writers, and every pattern of short or interrupted writes.",
  "No test formats more than one stream with one formatter directly.",
  ["src/fmt/formatter.rs", "src/tokens/tokens.rs"],
  [("whitespace and indentation state lives in the formatter", "src/fmt/formatter.rs Formatter")],
  ["bytes received by the writer"], [("line/spaces/indent", "whitespace pending between calls", "src/fmt/formatter.rs Formatter")])

p("C14", "Building and formatting release everything they took, however they end",
  "Once a stream and the outputs of formatting it are dropped, all memory taken for them has been released exactly once, whether each operation succeeded, returned an error, panicked or ran out of memory. Repeating the same work any number of times does not make the process hold more memory.",
  ["histories", "fault_sequences", "crash_points"],
  "Every history of build/format/clone/drop steps with failures injected at any write, callback, iterator step or allocation made while formatting.",
  "No test measures memory, and none takes the failing paths.",
  ["src/tokens/tokens.rs", "src/tokens/item_str.rs", "src/fmt/formatter.rs", "src/fmt/vec_writer.rs"] + LANGS,
  [("ownership: streams own items, formatters borrow", "whole crate"), ("no interning or caches", "whole crate")],
  ["live bytes and blocks in the simulated allocator"])

p("N01", "Quoted literals denote the original text in the target language",
  "For every string, the literal a bundled language renders for it is a single literal of that language whose value is that string.",
  ["inputs"], "Every string and language.",
  "Only a few characters per language are tested.",
  ["src/lang/mod.rs"] + LANGS, [("per-language write_quoted", "src/lang/*")], ["to_string output"])
p("N02", "Source layout of a quote determines the whitespace of the stream",
  "For every template, spaces, line breaks, blank lines and indentation between its tokens in the source become exactly one space, push, line or indentation change in the stream.",
  ["programs"], "Every source layout of a template.",
  "Only fixed templates are compiled.", ["genco-macros/src/encoder.rs", "genco-macros/src/fake.rs", "genco-macros/src/cursor.rs"],
  [("span line/column comparison", "genco-macros/src/encoder.rs tokenize_whitespace")], ["stream produced by a compiled quote"])
p("N03", "Malformed templates are rejected at compile time with a located error",
  "Every template that uses unknown functions, controls or inconsistent indentation fails to compile with an error at the offending token, and never panics the compiler.",
  ["programs"], "Every malformed template.", "There are no compile-fail tests.",
  ["genco-macros/src/quote.rs", "genco-macros/src/string_parser.rs"], [("syn errors", "genco-macros/src/quote.rs")], ["compiler diagnostics"])
p("N04", "The crate behaves the same on every supported toolchain",
  "On every supported compiler version the same program builds and produces the same streams, except for documented whitespace limitations.",
  ["configurations"], "Every supported compiler and feature set.", "Only one toolchain runs.",
  ["genco-macros/build.rs", "genco-macros/src/fake.rs", "Cargo.toml"], [("build-time feature detection", "genco-macros/build.rs")], ["build result"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))

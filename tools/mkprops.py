#!/usr/bin/env python3
"""Writes properties.jsonl (the single source of the property list)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          **({"state": [{"name": a, "meaning": b, "where": c} for a, b, c in state]} if state else {}),
                          "observe_at": observe, "hook_needed": hook}})
S = "src/serializer/"
LIB = ["hongdown::format", "hongdown::format_with_warnings"]

p("C01", "Formatting is idempotent",
  "Formatting a document and then formatting the result again with the same options returns the result byte for byte; consequently a file that --write has just rewritten passes --check with the same configuration.",
  ["inputs", "configurations"],
  "every document of the supported construct grammar (flat and nested blocks, inline markup, references, footnotes, directives, tables), every option setting; histories format;format and write;check",
  "Tests assert a second pass on a few dozen fixed inputs; the guarantee is over all inputs and options, and breaks through interactions of wrapping, escaping, nesting and reference handling.",
  ["src/lib.rs", S + "document.rs", S + "inline.rs", S + "wrap.rs", S + "list.rs", S + "escape.rs"],
  [("serializer emits only forms it re-parses to the same tree", S + "mod.rs"), ("source-preserving escapes", S + "escape.rs"), ("wrap keeps lines that fit", S + "wrap.rs")],
  LIB + ["hongdown --write; hongdown --check"])
p("C02", "Formatting preserves document content and structure",
  "Parsed as Markdown, the formatted text has the same blocks in the same order and nesting, the same words, emphasis, links, images, code and HTML as the input, apart from the documented rewrites (typographic punctuation, heading case when enabled, list renumbering, reference-style links and where definitions are placed); line endings of any kind are equivalent.",
  ["inputs", "configurations"],
  "every document of the supported construct grammar and every option setting",
  "Tests compare hand-written outputs for isolated constructs; loss or reinterpretation of content depends on combinations (context x construct x option) that no finite sample covers.",
  ["src/lib.rs", S + "mod.rs", S + "inline.rs", S + "escape.rs", S + "link.rs", S + "list.rs", S + "block.rs", S + "table.rs"],
  [("one serializer arm per node kind", S + "mod.rs:serialize_node"), ("escaping of markup characters", S + "escape.rs")],
  LIB)
p("C03", "Code block contents survive verbatim behind a safe fence",
  "Every code block comes out as one fenced block with exactly the input's code lines and info string (or the default language), in the same container, delimited by the configured fence character with a fence of at least the configured minimum length and longer than any run of that character that starts a content line.",
  ["inputs", "configurations"],
  "all code contents (including fence-like lines, blank lines, indentation), info strings, source fence styles, containers (top level, list item, quote, description, footnote) and code-block options",
  "Tests use a few contents; an unlucky content line closes the fence early only for particular combinations of run length, fence character, minimum length and container.",
  [S + "code.rs", S + "list.rs", S + "document.rs"],
  [("fence length selection", S + "code.rs"), ("per-line prefixing in containers", S + "code.rs:serialize_code_block_indented")],
  LIB)
p("C04", "Code spans, URLs, HTML and escapes are never rewritten",
  "Typographic and escaping rewrites apply to prose only: the contents of code spans, raw HTML, link and image destinations, autolinks and link titles, and characters that were backslash-escaped or written as entities in the source, come out with the same meaning they had.",
  ["inputs", "configurations"],
  "every placement of quote, dash, dot, bracket, star, underscore, backtick and entity characters inside and around such regions, under every combination of punctuation options",
  "Tests check some regions with the default options; whether a rewrite leaks into a protected region depends on adjacency and option combinations.",
  [S + "inline.rs", S + "punctuation.rs", S + "escape.rs", S + "link.rs"],
  [("source-preserving text pass", S + "escape.rs"), ("code and HTML pushed raw", S + "inline.rs")],
  LIB)
p("C05", "Formatting directives disable exactly their region",
  "After a disable directive the source of every block in its scope is reproduced unchanged and every block outside the scope is formatted: next-line covers one block, next-section runs to the next level 1-2 heading (which is formatted), disable runs to enable or the end, and disable-file covers everything that follows; the directive comments themselves are kept.",
  ["inputs", "histories"],
  "every sequence of blocks, headings and directives",
  "Tests exercise single directives; scopes overlap, nest and interact with reference and footnote placement over arbitrary sequences.",
  [S + "document.rs", S + "state.rs"],
  [("skip-mode automaton", S + "document.rs:serialize_document"), ("directive parsing", S + "state.rs:Directive::parse")],
  LIB, state=[("skip_mode", "none / next block / until section / disabled", S + "state.rs:FormatSkipMode")])
p("C06", "Reference links resolve to the same target, each defined once",
  "External links become reference links whose definition (same URL and title) appears exactly once, in the section that first uses it, before the next level 2-3 heading or the end, and every reference in the output resolves to the target the input gave it; numeric labels in one group are sorted after the others, everything else keeps order of first use.",
  ["inputs", "histories"],
  "every sequence of sections, link uses (inline, full, collapsed, shortcut, images, autolinks), labels and definitions in any position",
  "The outcome depends on the history of pending and emitted labels over the whole document; tests cover short fixed histories.",
  [S + "mod.rs", S + "state.rs", S + "link.rs", S + "inline.rs", S + "document.rs"],
  [("pending/emitted reference sets and flush points", S + "mod.rs:flush_references"), ("inline to reference conversion", S + "inline.rs")],
  LIB, state=[("pending_references / emitted_references", "definitions waiting for the end of the section / already written", S + "state.rs")])
p("C07", "Footnote definitions are kept once, in their section",
  "Every referenced footnote's definition appears exactly once with its full content, after the section that first references it and before the next level 2-3 heading (or at the end), numeric names sorted within a group after the others; references are untouched.",
  ["inputs", "histories"],
  "every sequence of sections, footnote references and definitions in any relative position, with single or multiple blocks of content and links inside notes",
  "Placement depends on reference lines and definition positions across the document; tests have a few fixed layouts.",
  [S + "mod.rs", S + "state.rs", S + "document.rs"],
  [("footnote set and flush_footnotes_before", S + "mod.rs"), ("pre-pass collecting reference lines", S + "document.rs")],
  LIB, state=[("footnotes.pending / emitted / reference_lines", "definitions not yet written / written / first use", S + "state.rs")])
p("C08", "Paragraph wrapping respects the line width and loses nothing",
  "A paragraph's source lines that fit stay as they are up to the first one that is too long; from there up to the next hard break text is refilled greedily so that a line exceeds the line width only when it cannot be broken (footnotes are refilled as a whole). Lines break only at spaces, never inside code spans, links or other bracketed text, and every token and hard break is kept in order. Widths are display columns and include quote prefixes and the indentation of continuation lines, though not the marker before the first line of a list item or description.",
  ["inputs", "configurations"],
  "every sequence of tokens, widths (including wide characters), soft and hard breaks, line widths and containers",
  "Off-by-one at a boundary shows only for particular width sums; tests use a handful of texts at width 80.",
  [S + "wrap.rs", S + "document.rs", S + "mod.rs"],
  [("greedy fill with display width", S + "wrap.rs"), ("prefix accounting in containers", S + "document.rs:serialize_paragraph")],
  LIB)
p("C09", "Block layout is canonical",
  "Independently of how the source spelled them, blocks are separated by exactly one blank line (two before a level 2 heading unless it directly follows another heading), level 1-2 headings use the configured setext or ATX style with an underline exactly as wide as the text, thematic breaks use the configured style and indent, front matter comes first unchanged, and a non-empty document ends with exactly one newline.",
  ["inputs", "configurations"],
  "every sequence of block kinds in every source spelling, all heading and thematic-break options",
  "Adjacency rules depend on pairs and triples of block kinds and on options; tests sample few.",
  [S + "document.rs", S + "heading.rs", S + "mod.rs"],
  [("spacing rules between siblings", S + "document.rs"), ("setext underline", S + "heading.rs")],
  LIB)
p("C10", "--check and --write report and change exactly the unformatted files",
  "With --write every readable file ends up holding its formatted text, only files whose text changes are written and listed, and no file is lost or truncated when others fail; with --check nothing is written and exactly the unformatted files are named; the exit status is non-zero exactly when a file could not be processed or, with --check, was not formatted, whatever the order in which the files are processed in parallel.",
  ["schedules", "histories", "fault_sequences", "inputs"],
  "every set of file states (formatted, unformatted, empty, missing, not UTF-8, unwritable, duplicated), every worker interleaving, and sequences of --write and --check",
  "Integration tests run one or two files; the aggregate verdict over parallel workers and faults is never enumerated.",
  ["src/main.rs"],
  [("parallel file loop with atomic flags", "src/main.rs:run_write/run_check"), ("write only when changed", "src/main.rs")],
  ["hongdown CLI: exit status, stdout, stderr, file contents and mtimes"])
p("C11", "Stdout, --diff and --stdin modes never modify files and show the truth",
  "Without --write no file is modified; --stdin and single-file output print exactly the library's formatting of that text, --diff prints a unified diff that turns the file into its formatted text (nothing when they are equal), and unreadable input or invalid settings end with a message on stderr and a non-zero status.",
  ["inputs", "configurations", "fault_sequences"],
  "every mode and flag combination over every file state",
  "Few mode combinations are tested, none with faults.",
  ["src/main.rs"],
  [("mode dispatch", "src/main.rs:main"), ("diff output", "src/main.rs")],
  ["hongdown CLI"])
p("C12", "Configuration cascade resolves every setting from the right layer",
  "Each setting takes the value from the highest-precedence source that provides it, in the order command line, explicit --config or else nearest project file, XDG user file, home file, system file, defaults; a project file with no_inherit cuts off all lower layers, and an explicit --config file is used alone.",
  ["configurations", "inputs"],
  "every subset of layers present, every assignment of settings to layers, start directory depth, no_inherit and --config/--line-width flags",
  "Tests check two-layer merges of a few keys; precedence is a property of all layer subsets and all keys.",
  ["src/config.rs", "src/main.rs"],
  [("load_cascading", "src/config.rs"), ("merge_over", "src/config.rs:ConfigLayer::merge_over"), ("CLI overrides", "src/main.rs")],
  ["hongdown CLI under a scratch HOME/XDG_CONFIG_HOME", "Config::load_cascading"])
p("C13", "Configuration values are validated exactly",
  "A configuration is accepted exactly when each value lies in its documented domain (line width at least 8, list spacing 0-3, widths and fence lengths at least their minimum, known marker characters, valid thematic-break and dash patterns that do not conflict, non-empty formatter commands), every accepted value takes effect in the output, and a rejected file is reported and never partly applied.",
  ["configurations", "inputs"],
  "every key with every value around each domain boundary, alone and combined",
  "Boundary values per key are sampled; acceptance together with effect on formatting is not.",
  ["src/config.rs", "src/main.rs", S + "punctuation.rs"],
  [("newtypes with checked constructors", "src/config.rs"), ("dash conflict validation", S + "punctuation.rs:validate_dash_settings"), ("config to options mapping", "src/main.rs")],
  ["Config::from_toml", "hongdown CLI with .hongdown.toml"])
p("C14", "File collection selects exactly the configured files",
  "Without arguments the files processed are exactly those under the project directory that match include and not exclude (and are not git-ignored when git awareness is on); a directory argument selects the .md and .markdown files below it in any letter case; each file is processed once, in sorted order, and files given by name are always processed.",
  ["inputs", "configurations"],
  "every small directory tree, pattern set, ignore file and argument list",
  "Tests use single trees; selection is a set-valued function of tree x patterns x ignore rules.",
  ["src/config.rs", "src/main.rs"],
  [("collect_files", "src/config.rs"), ("expand_paths", "src/main.rs")],
  ["hongdown CLI", "Config::collect_files"])
p("C15", "External code formatters cannot lose code or hang the run",
  "A configured formatter's output replaces a block's code only if it exits successfully in time; on failure, timeout, missing command or invalid output the original code is kept and one warning reported, regardless of how much data flows through the pipes or how the process interleaves reading, writing and exiting; blocks of other languages or marked no-format never reach a formatter, and formatting always finishes within the configured timeouts.",
  ["schedules", "fault_sequences", "inputs"],
  "every interleaving of parent writes/reads/polls with child reads/writes/closes/exits, payload sizes around the pipe capacity, exit codes, timeouts",
  "Tests run echo-like commands with tiny payloads; deadlocks and races need specific sizes and orders (one existing test is itself racy).",
  [S + "formatter.rs", S + "code.rs"],
  [("run_formatter", S + "formatter.rs"), ("fallback with warning", S + "code.rs:try_format_code")],
  ["hongdown::format_with_warnings with code_formatters"])
p("C16", "Formatting is total",
  "For every text and every valid option setting formatting terminates and returns a result without panicking.",
  ["inputs", "configurations"],
  "arbitrary Unicode text, all construct combinations, extreme widths and options",
  "Panics (slicing, underflow) and hangs hide in inputs nobody thought of writing a test for.",
  ["src/lib.rs", S + "mod.rs", S + "escape.rs", S + "wrap.rs", S + "punctuation.rs", S + "heading.rs"],
  [("char-boundary-safe scanning", S + "escape.rs"), ("saturating arithmetic", S + "mod.rs")],
  LIB)
p("C17", "Warnings are exact",
  "A warning is issued, with the right source line, for exactly the bracketed references without a definition and the table rows whose cell separators do not match the header, and for nothing else; text in disabled regions, code, escapes, footnote references and abbreviations produces none.",
  ["inputs", "histories"],
  "every placement of defined and undefined references, tables with every row width, and directives",
  "Tests check single warnings; exactness (no missing, no spurious, right line) is over all documents.",
  [S + "document.rs", S + "table.rs", S + "state.rs"],
  [("undefined reference pre-pass", S + "document.rs:check_undefined_references"), ("table column check", S + "table.rs")],
  ["hongdown::format_with_warnings", "hongdown CLI stderr"])
p("C18", "Sentence case changes only letter case, by the documented rules",
  "With sentence case on, a heading keeps its words and markup; the first word is capitalised, other ordinary words are lower-cased, while proper nouns (built-in, configured or declared in the document, multi-word and longest match), acronyms, the pronoun I and code keep or receive their canonical form, common nouns override proper nouns, and headings are untouched when it is off.",
  ["inputs", "configurations", "histories"],
  "every sequence of word categories, separators and noun lists or directives",
  "Rules interact (position, separators, possessives, hyphens, directives in force); tests list examples one at a time.",
  [S + "heading.rs", S + "document.rs"],
  [("to_sentence_case", S + "heading.rs"), ("noun directives", S + "document.rs")],
  LIB)
p("C19", "Typographic punctuation follows the enabled rules and only those",
  "Quotes, apostrophes, ellipses and dashes in prose are converted exactly as the individually enabled rules say, the result does not depend on where lines break, and with all rules off no prose character changes.",
  ["inputs", "configurations"],
  "every character context up to a bound over the alphabet of quotes, dots, dashes, letters, digits, spaces, brackets and markup boundaries, times all rule combinations and dash patterns",
  "Context-sensitive conversion is a function of neighbouring characters and six options; tests sample contexts.",
  [S + "punctuation.rs", S + "inline.rs"],
  [("transform_punctuation passes", S + "punctuation.rs")],
  LIB)
p("C20", "List items get the configured markers, numbers and indentation",
  "Bullets use the configured marker with the configured leading and trailing spaces, ordered items are numbered consecutively from 1 with the delimiter configured for odd or even depth and padded to the configured width, task boxes are kept, tight and loose lists stay tight and loose, and continuation and nested content is indented so that it stays in its item.",
  ["inputs", "configurations"],
  "every nesting of bullet, ordered and task lists with multi-block items, every source marker style, every list option setting",
  "Indentation correctness depends on depth x options x item count; tests use default options mostly.",
  [S + "list.rs", S + "document.rs"],
  [("serialize_list_item", S + "list.rs")],
  LIB, state=[("list_depth / list_item_index", "current nesting and number", S + "state.rs")])
p("C21", "The WebAssembly options mean the same as the native ones",
  "Every option given to the WebAssembly API selects the same formatting as the native option of that name, absent options mean the native defaults, an out-of-domain number, marker or style leaves the default in force, and a dash setting that is no pattern disables that dash; the JavaScript functions initialise the module once and pass on text, options and callback as given.",
  ["configurations"],
  "every option with every value class, alone and pairwise combined",
  "Only a few options are tested for mapping; a swapped or forgotten field needs the specific option to differ.",
  ["src/wasm.rs"],
  [("JsOptions::to_options", "src/wasm.rs")],
  ["JsOptions to Options mapping", "packages/wasm/src/index.ts"], hook="read-only hook in src/wasm.rs exposing the mapping")
p("C22", "All entry points agree and formatting is deterministic",
  "For the same text and settings the library's two entry points, standard-input mode, single-file output, and the file left by --write give identical bytes, the warnings are the same wherever they are reported, and repeating a call or running it concurrently changes nothing.",
  ["inputs", "configurations", "schedules"],
  "every document, option setting and entry point; repeated and concurrent calls",
  "Tests never compare entry points with each other on the same input.",
  ["src/lib.rs", "src/main.rs", S + "mod.rs"],
  [("shared serializer", S + "mod.rs")],
  LIB + ["hongdown CLI"])
p("C23", "Tables stay aligned and keep every cell",
  "A table keeps its rows, cells and column alignments; every cell is padded to its column's display width (at least three columns) on the side given by the alignment, the separator row encodes the alignments, and pipes inside cells are escaped so that no cell is split or merged.",
  ["inputs", "configurations"],
  "every small table of cell contents (ASCII, wide characters, code, links, pipes, empty), alignments, row widths and containers",
  "Column width is a maximum over all cells of mixed display width; tests use a few tables.",
  [S + "table.rs", S + "escape.rs"],
  [("column width computation", S + "table.rs"), ("pipe escaping", S + "escape.rs:escape_table_cell")],
  LIB)
p("C24", "Block quotes and alerts keep their content inside the quote",
  "Every line of a block quote or alert carries its quote prefix for every enclosing level, blank lines separating its blocks included, the alert type line is kept, and content neither leaves the quote nor enters it.",
  ["inputs", "configurations"],
  "every nesting of quotes, alerts and lists holding paragraphs, code, headings and tables",
  "Prefix composition depends on the nesting path; tests cover a few paths.",
  [S + "block.rs", S + "list.rs", S + "code.rs", S + "document.rs"],
  [("blockquote context", S + "block.rs")],
  LIB, state=[("blockquote_prefix / list_item_indent", "prefix for the current nesting", S + "state.rs")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")

#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAY = "every behaviour TLC generates is replayed in the real formatter and must give the predicted text"
T = {
 "C16": ("TLA+ models of arbitrary texts, edits and settings (Soup.tla over Settings.tla), of large texts (Big.tla) and of documents (all specifications), TLC, behaviours run in the code",
         "Every pair of some 250 pieces of markup, words and characters, long random sequences, random edits of the documents of all specifications under random settings, and shapes repeated and nested up to 1000 times: each must be formatted, by both functions alike, with no panic and within a time limit."),
 "C02": ("TLA+ models of documents (all specifications, Compose.tla) and of what formatting may do to them (Stream.tla), TLC, recorded streams of the code validated as traces",
         "What a reader sees of source and formatted text is recorded for documents which TLC generates from every specification, documents TLC composes of these in every container, and the repository's own documents; TLC goes through both streams and accepts only the documented rewrites which are switched on."),
 "C01": ("TLA+ model of histories of use (Session.tla) over the documents of all specifications, TLC, histories run with the real library and program",
         "In the model formatted texts are fixed points, what was written passes checks until it is edited; documents which TLC generates from every other specification are formatted twice, and random histories of writing, checking and editing them are run with the program, whose answers must be those of the model."),
 "C22": ("TLA+ model of histories of use (Session.tla) over the documents of all specifications, TLC, histories run with the real library and program",
         "In the model a text and settings have one result: histories of calls one after the other and side by side of both functions of the library, and of runs over standard input and files in every mode, must give exactly the same text and messages."),
 "C04": ("TLA+ model of inline text (Inline.tla), TLC, behaviours replayed in the code",
         "Every piece of text carries the tokens a reader must see; escapes, entities, spans, links with every kind of address and title, autolinks and raw HTML in 18 contexts and 7 option sets are formatted, and a reader of the output must see the same."),
 "C05": ("TLA+ model of the serializer (Doc.tla), TLC, behaviours replayed in the code",
         "TLC checks directive scope on every document of up to 3 blocks of the menu and on random longer ones; %s." % REPLAY),
 "C06": ("TLA+ model of reference bookkeeping (Doc.tla), TLC, behaviours replayed in the code",
         "Uniqueness, resolution and placement of definitions are invariants of the model; %s." % REPLAY),
 "C07": ("TLA+ model of footnote bookkeeping (Doc.tla), TLC, behaviours replayed in the code",
         "Footnote uniqueness and placement are invariants of the model; %s." % REPLAY),
 "C08": ("TLA+ model of paragraph wrapping (Wrap.tla), TLC, behaviours replayed in the code",
         "Every short paragraph over the basic tokens and random long ones over words, wide text, spans, links, escapes and block starts, in 14 containers and 12 widths; %s." % REPLAY),
 "C09": ("TLA+ model of block layout (Doc.tla), TLC, behaviours replayed in the code",
         "Blank lines, headings, thematic breaks and edges in every spelling and option set of the menu; %s." % REPLAY),
 "C03": ("TLA+ model of code blocks and fences (Code.tla), TLC, behaviours replayed in the code",
         "Fence safety, fence length and verbatim content are invariants over lines of fences, markup and white space in 17 containers and 7 spellings; %s." % REPLAY),
 "C10": ("TLA+ model of runs of the program (Cli.tla), TLC, behaviours laid out as trees of files and run with the real program",
         "TLC lets workers treat the files in every order and checks that the outcome is the same; files of every right, links, directories and repeated arguments are laid out in scratch trees, run with 1 and 4 threads, and tree, listing, messages and status must be as predicted."),
 "C11": ("TLA+ models of runs (Cli.tla) and of unified diffs (Diff.tla), TLC, behaviours run with the real program and its diffs validated as traces",
         "Reading modes on files and standard input must leave the tree as it is and print exactly the predicted text; every recorded diff is replayed by TLC against the meaning of unified diffs and must lead to the formatted text."),
 "C12": ("TLA+ model of the configuration layers (Config.tla), TLC, behaviours laid out as files and run with the real program",
         "That each setting comes from its highest layer is an invariant; random distributions of all settings over seven files, with no_inherit and --line-width, are laid out in scratch directories and the program's output must show exactly the predicted settings."),
 "C13": ("TLA+ model of the domains of all settings (Config.tla), TLC, behaviours laid out as files and run with the real program",
         "Every listed good and bad value of every setting alone, short strings as thematic breaks, conflicting dashes and random mixtures: rejected exactly when the model says so, nothing written then, and every accepted value shows its effect."),
 "C14": ("TLA+ models of the walk over the tree (Collect.tla) and of arguments (Cli.tla), TLC, behaviours laid out as trees of files and run with the real program",
         "That the walk takes exactly the files which are included, not excluded and not ignored by Git is an invariant; trees, patterns, ignore files of three kinds, links and argument lists are laid out and the program must treat exactly the predicted files, once, in order."),
 "C15": ("TLA+ models of the process, its pipes and the threads around it (Pipe.tla, exhaustive, with liveness) and of blocks and formatter scripts (Actor.tla, ExtFmt.tla), TLC, behaviours replayed with real processes which follow the scripts",
         "Pipe.tla shows for every interleaving and pipes of one unit that feeding and draining in threads always ends and loses nothing; scripts that read, print, overflow pipes, crash, hang, fork and close streams are then run as real formatters, and text, warnings, number of runs and time must be as predicted."),
 "C21": ("TLA+ models of the options objects (WasmOpts.tla over Settings.tla) and of the JavaScript functions around the module (JsApi.tla), TLC, behaviours replayed in the code",
         "Every option with every value within and outside of its domain, and random mixtures of up to all 26: the settings and the text they make must be those of the native options; every order of calls, loading and initialisation of up to three calls is replayed in the JavaScript functions around a recording module. The generated glue of wasm-bindgen and the wasm32 target are not available offline."),
 "C17": ("TLA+ models of undefined references (Warn.tla), directives (Doc.tla) and table rows (Table.tla), TLC, behaviours replayed in the code",
         "The warnings of every piece in every container, of bad rows, and of every block under every directive are predicted by the models with their lines; the real warnings must be exactly these."),
 "C18": ("TLA+ models of sentence case (Heading.tla) and of the built-in nouns (Nouns.tla), TLC, behaviours replayed in the code",
         "Kept words, capital where due, fixed forms and common nouns are invariants over headings of words, states, user nouns, marks and delimiters, with noun directives between headings; %s." % REPLAY),
 "C19": ("TLA+ model of typographic punctuation (Punct.tla), TLC, behaviours replayed in the code",
         "The rules are passes over the characters of a block; that only enabled rules act, fixed text stays and quotes face the right way are invariants over quotes, dots, dashes, markup, code and escapes in 9 contexts and 16 option sets; %s." % REPLAY),
 "C20": ("TLA+ model of nested containers (Nest.tla), TLC, behaviours replayed in the code",
         "Markers, numbers, delimiters and indentation of every small nesting and random large ones under 8 option sets; %s, and the structure a reader finds must be the author's." % REPLAY),
 "C23": ("TLA+ model of tables (Table.tla), TLC, behaviours replayed in the code",
         "Alignment, tightest columns and kept cells are invariants over cells with wide text, pipes and inlines in 10 containers; %s." % REPLAY),
 "C24": ("TLA+ model of nested containers (Nest.tla), TLC, behaviours replayed in the code",
         "Quotes and alerts around and inside every kind of block, exhaustively small and randomly large; %s, and the structure a reader finds must be the author's." % REPLAY),
}
extra = os.path.join(ROOT, "tools", "manifest_extra.py")
NA = []
if os.path.exists(extra):
    exec(open(extra).read())
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "checks": [{"property": p, "quick_cmd": "python3 tools/check.py %s quick" % p,
                 "thorough_cmd": "python3 tools/check.py %s thorough" % p,
                 "evidence_file": "evidence/%s.json" % p,
                 "technique": t[0], "level": "model_checking", "level_note": t[1]} for p, t in sorted(T.items())],
     "not_applicable": NA}
if os.path.exists(extra) and "HOOKS" in globals():
    m["hooks"] = HOOKS
allp = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
have = set(T) | {n["property"] for n in NA}
m["not_applicable"] += [{"property": p, "reason": "check under construction"} for p in allp if p not in have]
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)

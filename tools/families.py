"""Which specifications decide which property, within which bounds, and how
their behaviours are bound to the code."""
import collections, json, os, random, re, shutil, subprocess, tempfile
import cli, vf
from vf import mkcfg, tla, harness, unph, REPO, SEED, ToolError

CHECKS = {}


def check(pid):
    def reg(f):
        CHECKS[pid] = f
        return f
    return reg


# -------------------------------------------------------------- binding
def refused(c, r, y):
    """Every setting the specifications choose is valid: refusing one is a
    violation of whatever was to be shown with it."""
    if "err" in y:
        raise vf.ToolError("harness: %s on %r" % (y, r))
    if "badopts" in y:
        c.violation("a valid setting is refused", src=r["src"], opts=r.get("opts") or {}, got=y)
        return True
    return False


def predict(c, recs):
    """Replay behaviours of a specification: the real formatter must write
    exactly the text the specification predicts."""
    uniq = {}
    for r in recs:
        uniq.setdefault((r["src"], json.dumps(r.get("opts") or {}, sort_keys=True)), r)
    recs = list(uniq.values())
    reqs = [{"op": "fmt", "src": r["src"], "opts": r.get("opts") or {}, "want": []} for r in recs]
    for r, y in zip(recs, harness(reqs)):
        c.traces += 1
        if refused(c, r, y):
            continue
        if y.get("out") != r["out"]:
            c.violation("the output differs from the specification's", src=r["src"], opts=r.get("opts") or {},
                        expected=r["out"], got=y.get("out", y))
    for r in recs[:: max(1, len(recs) // 3)]:
        c.sample({"src": r["src"], "opts": r.get("opts") or {}, "out": r["out"]})
    return recs


def warnings_only(c, recs):
    """Replay behaviours of a specification which predicts (only) the warnings."""
    reqs = [{"op": "fmt", "src": r["src"], "opts": r.get("opts") or {}, "want": []} for r in recs]
    for r, y in zip(recs, harness(reqs)):
        c.traces += 1
        if refused(c, r, y):
            continue
        exp = sorted([w[0], w[1]] for w in (r.get("warn") or []))
        got = sorted([w[0], w[1]] for w in (y.get("warn") or []))
        if exp != got:
            c.violation("the warnings differ from the specification's", src=r["src"], opts=r.get("opts") or {},
                        expected_warnings=exp, got_warnings=got)
    for r in recs[:: max(1, len(recs) // 3)]:
        c.sample({"src": r["src"], "opts": r.get("opts") or {}, "warnings": r.get("warn") or []})


def replay_known(c):
    """Every listed finding of this property is replayed: it must still fail
    in the listed way (reported as known), or it is silent when repaired."""
    for k in c.known:
        if k.get("grow"):
            with cli.Cli() as prog:
                src = grow([{"shape": x, "n": x["n"]} for x in k["grow"]])
                code, out, _ = prog.each(lambda x, d: prog.run(["--stdin"], d, x.encode()), [src])[0]
                if code is None or code < 0 or code >= 128:
                    c.known_hits.append(k["id"])
            continue
        if k["id"] in c.known_hits or k.get("src") is None:
            continue
        y = harness([{"op": "fmt", "src": k["src"], "opts": k.get("opts") or {}, "want": []}])[0]
        if y.get("out") == k.get("out"):
            c.known_hits.append(k["id"])


def replay_file(path):
    v = json.load(open(path))
    print(json.dumps(v, indent=1, ensure_ascii=False))
    if "src" in v:
        y = harness([{"op": "fmt", "src": v["src"], "opts": v.get("opts") or {}, "want": ["again"]}])[0]
        print("--- real output now:")
        print(y.get("out", y))
    return 0


# ------------------------------------------------------------------ Doc.tla
DOC_INV = ["DirectivesExact", "DirectivesKept", "RestVerbatim", "OrderKept", "DefsUnique", "ResolvedRight", "RestResolved",
           "DefinedInSection", "FnOnce", "FnPlaced", "FnSorted", "LayoutOk", "BlanksOk", "H2Spaced", "NoEdgeBlanks", "Emit"]


def doc_job(menu, hi, sim=0, lo=None, opts="OptDefault", seed=None, timeout=800, inv=DOC_INV):
    cfg = mkcfg({"MinLen": str(lo or (hi if sim else 1)), "MaxLen": str(hi), "Menu": tla(set(menu.split(","))),
                 "Opts": "<- " + opts, "Choices": "<- OneOf" if sim else "<- All"}, inv)
    return dict(module="MCDoc", cfg=cfg, simulate=sim, depth=3 * hi + 8, seed=seed or SEED, timeout=timeout)


def doc_sims(menu, lengths, num, **kw):
    return [doc_job(menu, n, sim=num, seed=SEED * 1000 + 17 * k, **kw) for k, n in enumerate(lengths)]


@check("C05")
def c05(c, deep):
    jobs = [doc_job("p,h,dirs,ugly", 3), doc_job("p,h23,dirs,nouns,neardirs,uglyone,html", 3),
            doc_job("use,def,h23,dirs", 2)]
    mix = "p,h,dirs,ugly,nouns,neardirs,html,use,def,fnuse,fndef1"
    jobs += [doc_job("dirspell,neardirs,uglyone", 2)] + doc_sims("dirspell,uglyone,h23,neardirs", [3, 4], 600)
    jobs += doc_sims("p,h,dirs,dirspell,ugly,html", [5, 7, 9], 500) + doc_sims(mix, [6, 9], 400)
    if deep:
        jobs += [doc_job("p,h23,dirs,uglyone", 5), doc_job("p,h,dirs,ugly", 4), doc_job("use,def,h23,dirs", 3),
                 doc_job("fnuse,fndef1,h23,dirs", 3)]
        jobs += doc_sims(mix, [6, 8, 10, 12, 14], 6000) + doc_sims("p,h,dirs,ugly,html", [6, 8, 10, 12, 14], 6000)
    predict(c, c.tlc(jobs))


@check("C06")
def c06(c, deep):
    mix = "use,use2,useblk,def,h23,p"
    jobs = [doc_job("use,def", 2), doc_job("use,def,h23,dirs", 2)]
    jobs += doc_sims(mix, [3, 4, 6, 8], 700) + doc_sims("use,useblk,def,h,fnuse,fndef,fnuseblk,dirs,html", [6, 9], 500)
    jobs += doc_sims("html,enable,use,h23", [4, 6], 400)
    if deep:
        jobs += [doc_job("use,def", 3), doc_job("use,def,h23", 3)]
        jobs += doc_sims(mix, [3, 4, 5, 6, 8, 10, 12], 6000) + doc_sims(mix + ",fnuse,fndef,dirs,html", [6, 9, 12], 6000)
    predict(c, c.tlc(jobs))


@check("C07")
def c07(c, deep):
    mix = "fnuse,fndef,h23,p,fnuseblk,fnnest"
    jobs = [doc_job("fnuse,fnnest", 3), doc_sims("fnuse,fnnest,h23,fndef1", [5, 7], 700)[1], doc_job("fnuse,fndef", 2), doc_job("fnuse,fndef1,h23", 3), doc_job("fnuseh,fndef1,p", 3)]
    jobs += doc_sims(mix, [4, 6, 8], 700) + doc_sims("fnuse,fndef,fnnest,h,use,useblk,def,dirs,html", [6, 9], 500)
    if deep:
        jobs += doc_sims("fnuse,fnnest,h23,fndef1", [5, 6, 8, 10], 6000)
        jobs += [doc_job("fnuse,fndef", 3), doc_job("fnuse,fndef1,h23,dirs", 3), doc_job("fnuse,fndef1,h23", 4)]
        jobs += doc_sims(mix, [4, 5, 6, 8, 10, 12], 6000) + doc_sims(mix + ",use,useblk,def,dirs,html", [6, 9, 12], 6000)
    predict(c, c.tlc(jobs))


@check("C09")
def c09(c, deep):
    mix = "spelled,p,h,html,front,dirs,use,def,fnuse,fndef1"
    jobs = [doc_job("spelled,front", 2, opts="OptLayout"), doc_job("p,h,dirs,html", 3)]
    jobs += doc_sims("spelled", [3, 4, 6, 9], 500, opts="OptLayout") + doc_sims(mix, [6, 9], 400, opts="OptLayout")
    if deep:
        jobs += [doc_job("spelled", 3), doc_job("p,h,dirs,html", 4)]
        jobs += doc_sims("spelled", [3, 4, 5, 6, 8, 10, 12], 6000, opts="OptLayout") + doc_sims(mix, [6, 9, 12], 6000, opts="OptLayout")
    predict(c, c.tlc(jobs))


# ----------------------------------------------------------------- Wrap.tla
WRAP_INV = ["NothingLost", "HardKept", "HardSplits", "WidthOk", "KeptAreLines", "Greedy", "FillStays", "Emit"]
WRAP_CTX = ["top", "quote", "lazy", "quote2", "alert", "item", "num", "task", "item2", "nested", "qitem", "itemq", "dd", "note"]


def wrap_job(tokens, hi, sim=0, lo=None, widths=(8, 9, 12, 15, 20, 24, 40), ctxs=WRAP_CTX, seps=("1", "2", "nl", "hard", "hardbs"), seed=None):
    cfg = mkcfg({"MinLen": str(lo or (3 if sim else 1)), "MaxLen": str(hi), "Widths": tla(set(widths)), "Contexts": tla(set(ctxs)),
                 "TokenSet": tla(set(tokens.split(","))), "Seps": tla(set(seps)),
                 "Choices": "<- OneOf" if sim else "<- All"}, WRAP_INV)
    return dict(module="MCWrap", cfg=cfg, simulate=sim, depth=2 * hi + 8, seed=seed or SEED, timeout=800)


@check("C08")
def c08(c, deep):
    every = "words,big,wide,spans,escapes,emph,starts,refs"
    n = 6000 if deep else 1500
    jobs = [wrap_job("basic", 3, widths=(8, 12), ctxs=(x,), seps=("1", "nl")) for x in ("item", "num", "nested", "dd", "itemq")]
    jobs += [wrap_job("basic", 4 if deep else 3, widths=(8, 9), ctxs=("top", "item") if deep else ("top", "quote", "note"))]
    jobs += [wrap_job(every, hi, sim=n, seed=SEED * 1000 + hi) for hi in ((5, 7, 9, 12, 16, 24) if deep else (5, 8, 12, 16))]
    jobs += [wrap_job("basic,spans,refs,escapes," + x, hi, sim=n // 2, seed=SEED * 1000 + hi) for x in ("opening", "closing") for hi in (6, 10)]
    jobs += [wrap_job("words,wide", 30 if deep else 20, sim=n, widths=(20, 30, 40, 60, 80), seed=SEED * 1000 + 77)]
    if deep:
        jobs += [wrap_job("basic", 4, widths=(8, 12), ctxs=(x,)) for x in ("quote", "note", "dd", "nested")]
    predict(c, c.tlc(jobs))


# ----------------------------------------------------------------- Nest.tla
NEST_INV = ["QuotePrefixed", "NoStrayQuote", "ItemsIndented", "TightNoBlank", "NoDoubleBlank", "Emit"]


def nest_tokens(toks):
    """The projection of a document (harness/src/proj.rs) in the terms of Nest!Toks."""
    out = []
    for t in toks:
        k = t[0]
        if k == "<p":
            if not out or out[-1] != "dt":
                out.append("p")
        elif k == "t":
            out.append("t " + t[1])
        elif k == "<h":
            out.append("h%d" % t[1])
        elif k == "code":
            out.append("code " + t[1] + (" " if t[1] else "") + t[2].replace("\n", "|"))
        elif k == "html":
            out.append("html")
        elif k == "<table":
            out.append("table " + t[1])
        elif k in ("<tr", "<td", "<dt"):
            out.append(k[1:])
        elif k == "<list":
            out.append("<%s %s" % (t[1], "tight" if t[2] else "loose"))
        elif k == "<task":
            out.append("<task " + t[1].lower().strip())
        elif k in (">li", ">task"):
            out.append("> ")
        elif k == "<alert":
            out.append("<alert")
        elif k in (">p", ">h", ">table", ">tr", ">td", ">dt", "<di", ">di"):
            pass
        else:
            out.append(k)
    return out


def nest_replay(c, recs):
    """Replays documents of Nest and compares, besides the text, the structure a
    reader finds in source and output with the structure the author built."""
    recs = predict(c, recs)
    for r, y in zip(recs, harness([{"op": "fmt", "src": r["src"], "opts": r["opts"], "want": ["tok"]} for r in recs])):
        if "tok_in" not in y:
            continue
        lang = r["opts"].get("default_language", "")
        for side, got, code in (("source", nest_tokens(y["tok_in"]), "code "), ("output", nest_tokens(y["tok_out"]), "code " + lang + (" " if lang else ""))):
            exp = [code + t[6:] if t.startswith("code@") else t for t in r["toks"]]
            if got != exp:
                if side == "source":
                    raise vf.ToolError("the specification's source means something else: %r %r %r" % (r["src"], exp, got))
                c.violation("the structure of the output differs from the author's", src=r["src"], opts=r["opts"], expected=exp, got=got)


def nest_job(lo, hi=None, sim=0, leaves="p,p2,ab,h3,h2,h1,hr,code,ecode,bcode,icode,html,pre,com,tab,hb,am", wraps="ul,ol,task,bq,alert,dl", shapes="ShapeAll",
             styles="StyleAll", opts="OptLists", seed=None):
    hi = hi or lo
    cfg = mkcfg({"MinLen": str(lo), "MaxLen": str(hi), "Leaves": tla(set(leaves.split(","))), "Wraps": tla(set(wraps.split(","))),
                 "Shapes": "<- " + shapes, "Styles": "<- " + styles, "Opts": "<- " + opts, "Choices": "<- OneOf" if sim else "<- All"}, NEST_INV)
    return dict(module="MCNest", cfg=cfg, simulate=sim, depth=2 * hi + 8, seed=seed or SEED, timeout=800)


def nest_sims(lengths, num, **kw):
    return [nest_job(n, sim=num, seed=SEED * 1000 + 17 * k, **kw) for k, n in enumerate(lengths)]


@check("C20")
def c20(c, deep):
    lists = dict(wraps="ul,ol,task", leaves="p,p2,code,hr,tab")
    jobs = [nest_job(1, 3, leaves="p", wraps="ul,ol,task", shapes="ShapeFew", styles="StyleOne", opts="OptLists")]
    jobs += nest_sims([3, 4, 5, 6, 8, 10], 600) + nest_sims([4, 6, 8, 10], 600, **lists)
    rows = dict(wraps="ul,ol,task", leaves="p", shapes="ShapeRows")   # lists which follow each other
    jobs += nest_sims([5, 7, 9, 11], 500, **rows)
    if deep:
        jobs += nest_sims([5, 6, 7, 8, 9, 10, 11, 13], 6000, **rows)
        jobs += [nest_job(1, 4, leaves="p,hr,code", wraps="ul,ol", shapes="ShapeFew", styles="StyleOne", opts="OptDefault")]
        jobs += nest_sims([4, 5, 6, 7, 8, 10, 12, 14], 6000) + nest_sims([4, 6, 8, 10, 12, 16], 6000, **lists)
    nest_replay(c, c.tlc(jobs))


@check("C24")
def c24(c, deep):
    quotes = dict(wraps="ul,ol,bq,alert")
    jobs = [nest_job(1, 3, leaves="p,ecode,am", wraps="bq,alert,ul", shapes="ShapeFew", styles="StyleOne", opts="OptDefault")]
    jobs += nest_sims([3, 4, 5, 6, 8, 10], 600) + nest_sims([4, 6, 8, 10], 600, **quotes)
    if deep:
        jobs += [nest_job(1, 4, leaves="p,code", wraps="bq,alert,ol", shapes="ShapeFew", styles="StyleOne", opts="OptDefault")]
        jobs += nest_sims([4, 5, 6, 7, 8, 10, 12, 14], 6000) + nest_sims([4, 6, 8, 10, 12, 16], 6000, **quotes)
    nest_replay(c, c.tlc(jobs))


# ---------------------------------------------------------------- Table.tla
TABLE_INV = ["CellsKept", "Aligned", "Tightest", "RowsKept", "WarnExact", "Emit"]
TABLE_CTX = ["top", "below", "quote", "quote2", "alert", "item", "item2", "num", "itemq", "dd"]
TABLE_SP = ["full", "tight", "wide", "bare", "lead", "trail"]


def table_job(cells, lo, hi=None, sim=0, cols=3, ctxs=TABLE_CTX, sps=TABLE_SP, seed=None):
    hi = hi or lo
    cfg = mkcfg({"MinLen": str(lo), "MaxLen": str(hi), "MaxCols": str(cols), "CellSet": tla(set(cells.split(","))), "Contexts": tla(set(ctxs)),
                 "Spellings": tla(set(sps)), "Choices": "<- OneOf" if sim else "<- All"}, TABLE_INV)
    return dict(module="MCTable", cfg=cfg, simulate=sim, depth=(cols + 4) * (hi + 2) + 8, seed=seed or SEED, timeout=800)


def table_sims(rows, num, **kw):
    every = "basic,text,wide,pipes,inline"
    return [table_job(every, n, sim=num, seed=SEED * 1000 + 13 * k, cols=m, **kw) for k, (n, m) in enumerate(rows)]


@check("C23")
def c23(c, deep):
    jobs = [table_job("basic", 1, 2, cols=2, ctxs=["top"], sps=["tight"]), table_job("basic", 1, cols=2, ctxs=["item"], sps=["full"])]
    jobs += table_sims([(1, 3), (2, 2), (2, 4), (3, 3), (4, 5), (6, 4)], 600)
    if deep:
        jobs += [table_job("basic,pipes", 1, 2, cols=2, ctxs=["top"], sps=["full"]), table_job("basic", 1, 3, cols=2, ctxs=["quote"], sps=["bare"])]
        jobs += table_sims([(1, 4), (2, 2), (2, 4), (3, 3), (4, 5), (6, 4), (9, 6), (12, 3)], 5000)
    predict(c, c.tlc(jobs))


# ----------------------------------------------------------------- Code.tla
CODE_INV = ["Safe", "LongEnough", "NoLonger", "Verbatim", "InfoKept", "Emit"]
CODE_CTX = ["top", "below", "quote", "quote2", "alert", "item", "tight", "item2", "num", "nested", "qitem", "itemq", "qitemq", "dd", "dd2", "qdd", "note"]
CODE_SPELL = ["bt", "bt9", "td", "td9", "off", "open", "ind"]
CODE_INFO = ["none", "rs", "meta", "nofmt", "tick", "esc", "wide"]


def code_job(lines, lo, hi=None, sim=0, ctxs=CODE_CTX, spells=CODE_SPELL, infos=CODE_INFO, opts="OptAll", posts=("none", "para"), seed=None):
    hi = hi if hi is not None else lo
    cfg = mkcfg({"MinLen": str(lo), "MaxLen": str(hi), "LineSet": tla(set(lines.split(","))), "Contexts": tla(set(ctxs)), "Spells": tla(set(spells)),
                 "Infos": tla(set(infos)), "Posts": tla(set(posts)), "Opts": "<- " + opts, "Choices": "<- OneOf" if sim else "<- All"}, CODE_INV)
    return dict(module="MCCode", cfg=cfg, simulate=sim, depth=3 * hi + 12, seed=seed or SEED, timeout=800)


def code_sims(lengths, num, **kw):
    return [code_job("basic,fences,markup,indent,space", n, sim=num, seed=SEED * 1000 + 11 * k, **kw) for k, n in enumerate(lengths)]


@check("C03")
def c03(c, deep):
    jobs = [code_job("basic", 0, 2, infos=["none", "rs"], opts="OptTwo", posts=["none"], spells=["bt", "td"]),
            code_job("basic,fences", 0, 2, ctxs=["top", "item2"], infos=["none"], opts="OptTwo", posts=["para"], spells=["bt", "ind"])]
    jobs += code_sims([1, 2, 3, 4, 5, 7], 700)
    if deep:
        jobs += [code_job("basic,fences", 0, 3, ctxs=[x], infos=["none"], opts="OptTwo", posts=["none"], spells=["bt", "td"]) for x in ("top", "qitem", "note", "dd2")]
        jobs += [code_job("basic,fences,markup,indent,space", 0, 1, infos=["none", "tick", "rs"], posts=["none"])]
        jobs += code_sims([1, 2, 3, 4, 5, 7, 10, 15], 6000)
    predict(c, c.tlc(jobs))


# -------------------------------------------------------------- Heading.tla
HEADING_INV = ["WordsKept", "OffKept", "CapWhereDue", "FixedKept", "CommonWins", "NounsForm", "Emit"]
HEADING_WORDS = "plain,more,caps,I,same,nouns,states,user"
HEADING_MARKS = ["em", "strong", "paren", "rel", "relt", "rela", "relp", "html", "cmt", "ref", "short", "ext", "img"]


def heading_job(words, lo, hi=None, sim=0, marks=HEADING_MARKS, heads=1, opts="OptNouns", seed=None):
    hi = hi or lo
    cfg = mkcfg({"MinLen": str(lo), "MaxLen": str(hi), "WordSet": tla(set(words.split(","))), "Marks": tla(set(marks)), "MaxHeads": str(heads), "MaxDirs": str(2 * heads if sim else 0),
                 "Opts": "<- " + opts, "Choices": "<- OneOf" if sim else "<- All"}, HEADING_INV)
    return dict(module="MCHeading", cfg=cfg, simulate=sim, depth=(7 * hi + 12) * heads + 10, seed=seed or SEED, timeout=800)


def heading_sims(lengths, num, words=HEADING_WORDS, **kw):
    return [heading_job(words, n, sim=num, seed=SEED * 1000 + 19 * k, **kw) for k, n in enumerate(lengths)]


NOUN_FRAMES = ["first", "middle", "last", "comma", "paren", "colon", "em", "strong", "quote", "link", "poss", "end"]


def noun_job(frames):
    """Every built-in noun in every spelling."""
    cfg = mkcfg({"File": tla(os.path.join(vf.ROOT, "spec", "nouns.ndjson")), "Frames": tla(set(frames)), "Choices": "<- All"}, ["Canonical", "OffKept", "Emit"])
    return dict(module="MCNouns", cfg=cfg, simulate=0, depth=4, seed=SEED, timeout=800)


@check("C18")
def c18(c, deep):
    n = 6000 if deep else 500
    frames = sorted(NOUN_FRAMES)
    jobs = [heading_job("basic", 1, 2, marks=["em"], opts="OptPlain"), heading_job("I,caps", 1, marks=["paren"], opts="OptPlain")]
    jobs += heading_sims([2, 4, 6, 9], n) + heading_sims([4, 6], n, words="states,nouns", heads=2)
    jobs += [noun_job(frames if deep else [frames[(SEED + k) % len(frames)] for k in (0, 3, 6)])]
    jobs += heading_sims([4, 7], n, words="user,plain") + [heading_job("over", 3, marks=[], opts="OptOverlap")] + heading_sims([4, 5], n, words="over,edge", marks=[], opts="OptOverlap") + heading_sims([3, 5], n, words="nouns,user", heads=2) + heading_sims([4], n, words="more,caps,I,same") + heading_sims([3, 5], n, words="apos,basic", marks=["em"])
    if deep:
        jobs += [heading_job("plain,I", 1, 2, marks=["em"], opts="OptPlain"), heading_job("nouns", 1, 2, marks=["rel"], opts="OptPlain"),
                 heading_job("user", 1, 2, marks=["paren"], opts="OptTwo")]
        jobs += heading_sims([3, 5, 8, 12, 16], n) + heading_sims([6, 8, 10], n, words="states,nouns,user,plain", heads=3)
    predict(c, c.tlc(jobs))


# ----------------------------------------------------------------- Warn.tla
WARN_INV = ["Exact", "OnLines", "Emit"]
WARN_PIECES = "basic,plain,known,refs,broken"
WARN_HOLD = ["top", "h2", "h1", "setext", "quote", "lazy", "quote2", "alert", "alertt", "item", "item2", "num", "task", "nested", "itemq", "dt", "dd", "thead", "tcell", "note"]
WARN_EXTRA = ["def", "defalso", "abbr", "abbrdef", "abbrdef2", "code", "icode", "html", "para"]


def warn_job(lo, hi, pieces, sim=0, num=WARN_PIECES, holders=WARN_HOLD, extras=WARN_EXTRA, seed=None):
    cfg = mkcfg({"MinLen": str(lo), "MaxLen": str(hi), "MaxPieces": str(pieces), "PieceSet": tla(set(num.split(","))), "Holders": tla(set(holders)),
                 "Extras": tla(set(extras)), "Choices": "<- OneOf" if sim else "<- All"}, WARN_INV)
    return dict(module="MCWarn", cfg=cfg, simulate=sim, depth=(2 * pieces + 6) * hi + 10, seed=seed or SEED, timeout=800)


DOC_WARN = ["DirectivesExact", "RawWarnsNot", "EmitWarn"]


@check("C17")
def c17(c, deep):
    n = 8000 if deep else 1500
    jobs = [warn_job(1, 1, 1, extras=["def"]), warn_job(1, 1, 3, num="broken,basic", extras=["def"]), warn_job(2, 2, 1, holders=["top"]),
            warn_job(2, 4, 5, sim=n), warn_job(1, 3, 9, sim=n, seed=SEED * 1000 + 1), warn_job(3, 8, 2, sim=n, seed=SEED * 1000 + 2)]
    mix = "und,badtable,dirs,nouns,h23,use,def,useblk,ugly"
    jobs += [doc_job("und,badtable", 2, inv=DOC_WARN), doc_job("und,dirs,h23", 3 if deep else 2, inv=DOC_WARN), doc_job("p,dirs,badtable", 3, inv=DOC_WARN)]
    jobs += doc_sims("und,badtable,dirs,h23", [4, 6], 400, inv=DOC_WARN) + doc_sims(mix, [6, 8], 300, inv=DOC_WARN)
    jobs += table_sims([(1, 3), (2, 4), (4, 5)], 600)
    if deep:
        jobs += [warn_job(1, 1, 2), warn_job(2, 2, 1)]
        jobs += doc_sims(mix, [4, 6, 8, 10, 12], 5000, inv=DOC_WARN) + doc_sims("und,badtable,dirs,h23", [4, 6, 8, 10], 5000, inv=DOC_WARN)
        jobs += table_sims([(2, 3), (3, 4), (6, 6), (10, 3)], 4000)
    warnings_only(c, c.tlc(jobs))


# ---------------------------------------------------------------- Punct.tla
PUNCT_INV = ["OnlyEnabled", "OffKept", "FixedKept", "OpenBefore", "CloseAfter", "WithinWord", "NoneLeft", "Emit"]
PUNCT_CTX = ["top", "after", "h3", "quote", "item", "item2", "dd", "note", "dt"]
PUNCT_PIECES = "basic,quotes,apos,dots,dashes,marks,fixed,typed"


def punct_job(pieces, lo, hi=None, sim=0, ctxs=PUNCT_CTX, seps=("1", "0", "nl", "hard"), opts="OptAll", seed=None):
    hi = hi or lo
    cfg = mkcfg({"MinLen": str(lo), "MaxLen": str(hi), "PieceSet": tla(set(pieces.split(","))), "Contexts": tla(set(ctxs)), "Seps": tla(set(seps)),
                 "Opts": "<- " + opts, "Choices": "<- OneOf" if sim else "<- All"}, PUNCT_INV)
    return dict(module="MCPunct", cfg=cfg, simulate=sim, depth=hi + 14, seed=seed or SEED, timeout=800)


def punct_sims(lengths, num, pieces=PUNCT_PIECES, **kw):
    return [punct_job(pieces, n, sim=num, seed=SEED * 1000 + 23 * k, **kw) for k, n in enumerate(lengths)]


@check("C19")
def c19(c, deep):
    n = 6000 if deep else 700
    jobs = [punct_job(PUNCT_PIECES, 1, ctxs=["top"]), punct_job("basic", 1, 3, ctxs=["top"], opts="OptDefault"),
            punct_job("basic,apos", 1, 2, ctxs=["top"], seps=["1", "0"], opts="OptDefault")]
    jobs += punct_sims([2, 3, 5, 8, 12, 20], n) + punct_sims([3, 5], n, pieces="basic,quotes,apos", opts="OptMore")
    jobs += punct_sims([3, 5], n, pieces="basic,dashes,dots,marks", opts="OptMore") + punct_sims([4], n, opts="OptOnes")
    if deep:
        jobs += [punct_job("basic", 1, 4, ctxs=["top"], opts="OptDefault", seps=["1", "0"]), punct_job("basic,dashes", 1, 2, ctxs=["top"], opts="OptMore"),
                 punct_job("quotes", 1, 2, ctxs=["top"], opts="OptDefault"), punct_job("basic,apos", 1, 2, ctxs=["top"], seps=["1", "0"], opts="OptMore")]
        jobs += punct_sims([2, 3, 4, 6, 9, 14, 25], n)
    predict(c, c.tlc(jobs))


# --------------------------------------------------------------- Inline.tla
INLINE_INV = ["AllSeen", "Balanced", "Emit"]
INLINE_CTX = ["top", "quote", "lazy", "alert", "item", "num", "task", "item2", "nested", "dd", "note", "h1", "h2", "h4", "setext", "dt", "thead", "tcell"]
INLINE_PIECES = "esc,esc2,escw,ent,entw,bare,emph,code,codenl,link,linknl,auto,self,html,htmlnl,tag"


def inline_tokens(toks):
    """The projection of a document (harness/src/proj.rs) in the terms of Inline!seen."""
    out = []
    for t in toks:
        k = t[0]
        if k == "<h":
            t = ["<h%d" % t[1]]
        elif k in ("<a", "<img"):
            t = [k, t[1].replace(" ", "%20"), t[2].replace("\n", " ")]
        elif k == "htmlinline":
            t = [k, " ".join(t[1].split())]
        elif k[0] in "<>" and k not in ("<a", "<img"):
            t = [k]
        out.append(t)
    return out


def inline_replay(c, recs):
    """A reader of the output sees what the author of the source meant."""
    uniq = {}
    for r in recs:
        uniq.setdefault((r["src"], json.dumps(r["opts"], sort_keys=True)), r)
    recs = list(uniq.values())
    for r, y in zip(recs, harness([{"op": "fmt", "src": r["src"], "opts": r["opts"], "want": ["tok"]} for r in recs])):
        c.traces += 1
        if refused(c, r, y):
            continue
        if "tok_in" not in y:
            c.violation("no output", src=r["src"], opts=r["opts"], got=y)
            continue
        exp = inline_tokens(r["toks"])
        if inline_tokens(y["tok_in"]) != exp:
            raise vf.ToolError("the specification's source means something else: %r %r %r" % (r["src"], exp, inline_tokens(y["tok_in"])))
        got = inline_tokens(y["tok_out"])
        if got != exp:
            c.violation("a reader of the output sees something else", src=r["src"], opts=r["opts"], expected=exp, got=got, out=y["out"])
    for r in recs[:: max(1, len(recs) // 3)]:
        c.sample(r)


def inline_job(pieces, lo, hi=None, sim=0, ctxs=INLINE_CTX, opts="OptAll", depth=1, seed=None):
    hi = hi or lo
    cfg = mkcfg({"MinLen": str(lo), "MaxLen": str(hi), "PieceSet": tla(set(pieces.split(","))), "Contexts": tla(set(ctxs)), "Opts": "<- " + opts, "Depth": str(depth),
                 "Choices": "<- OneOf" if sim else "<- All"}, INLINE_INV)
    return dict(module="MCInline", cfg=cfg, simulate=sim, depth=300, seed=seed or SEED, timeout=800)


def inline_sims(lengths, num, pieces=INLINE_PIECES, **kw):
    return [inline_job(pieces, n, sim=num, seed=SEED * 1000 + 29 * k, **kw) for k, n in enumerate(lengths)]


@check("C04")
def c04(c, deep):
    n = 3000 if deep else 400
    jobs = [inline_job(p, 1, opts="OptTwo") for p in ("esc,esc2,ent", "escw,entw,bare,emph,auto,self,codenl,tag", "bare,html,htmlnl")]
    jobs += [inline_job("bare,esc", 2, ctxs=["top"], opts="OptWide")] if deep else []
    jobs += inline_sims([1, 2], 2 * n, pieces="link,linknl") + inline_sims([2], n, pieces="link,linknl,code", depth=3) + inline_sims([2], n, pieces="code,codenl", depth=3)
    jobs += inline_sims([2, 3, 4, 6, 9], n) + inline_sims([2, 4], n, depth=2, pieces="esc,esc2,ent,bare,emph,code,link,linknl") + inline_sims([15], n // 4)
    if deep:
        jobs += inline_sims([2, 3, 4, 5, 7], n, depth=3) + inline_sims([3, 5], n, pieces="emph,bare,esc,escw") + inline_sims([25], n // 4)
    inline_replay(c, c.tlc(jobs))


# --------------------------------------------------------------- Config.tla
CONFIG_INV = ["RightLayer", "OnlyValid", "OnlyInvalid", "ExplicitAlone", "Emit"]
BASIC = {"line_width", "include", "heading.setext_h1", "unordered_list.unordered_marker", "code_block.formatters.fa", "punctuation.en_dash", "git_aware"}
CONFIG_SOURCES = ["sys", "home", "xdg", "out", "mid", "cwd", "cfg"]


def config_job(lo, hi=None, sim=0, names=None, sources=CONFIG_SOURCES, wrong=False, args=(0,), seed=None, twice=False):
    hi = hi or lo
    cfg = mkcfg({"MinLen": str(lo), "MaxLen": str(hi), "Overrides": tla(twice), "Names": "<- Everything" if names is None else tla(set(names)), "Sources": tla(set(sources)),
                 "Wrong": tla(wrong), "Args": tla(set(args)), "Choices": "<- OneOf" if sim else "<- All"}, CONFIG_INV)
    return dict(module="MCConfig", cfg=cfg, simulate=sim, depth=hi + 14, seed=seed or SEED, timeout=800)


def config_scene(run, r, d):
    """Lay out the files of a scenario and show what the program makes of them."""
    place = {"sys": "etc/config.toml", "home": "home/.hongdown.toml", "xdg": "xdg/hongdown/config.toml", "out": "out/.hongdown.toml", "mid": "out/m/.hongdown.toml",
             "cwd": "out/m/c/.hongdown.toml", "cfg": "conf/given.toml"}
    # the user's directory of settings, given or the usual one
    given = len(r["src"] + json.dumps(r["files"])) % 2 == 0
    if not given:
        place["xdg"] = "home/.config/hongdown/config.toml"
    for f in r["files"]:
        cli.write(os.path.join(d, place[f["at"]]), cli.toml(f))
    os.makedirs(os.path.join(d, "out", ".git"))
    cli.write(os.path.join(d, "out", ".gitignore"), "b.md\n")
    for sub in ("out", "out/m", "out/m/c", "conf"):
        for n in ("a.md", "b.md"):
            cli.write(os.path.join(d, sub, n), "# x #\n")
            os.chown(os.path.join(d, sub, n), cli.NOBODY, cli.NOBODY)
    env = {"HD_ETC": os.path.join(d, "etc"), "HOME": os.path.join(d, "home"), "XDG_CONFIG_HOME": os.path.join(d, "xdg") if given else None}
    cwd = os.path.join(d, "out/m/c")
    args = (["--config", os.path.join(d, place["cfg"])] if any(f["at"] == "cfg" for f in r["files"]) else []) + (["--line-width", str(r["arg"])] if r["arg"] else [])
    code, out, err = run(args + ["--stdin"], cwd, r["src"].encode(), env)
    got = {"code": code, "out": out.decode(errors="replace"), "err": err.decode(errors="replace")[-600:]}
    if r["error"]:
        if code in (0, None) or out or "Error" not in got["err"]:
            return "an invalid configuration is not reported", got
        bad = [f["at"] for f in r["files"] if f["at"] == r["error"]]
        if bad and os.path.basename(place[bad[0]]) not in got["err"]:
            return "the message does not name the invalid file", got
        # nothing is written with an invalid configuration
        code, out, err = run(args + ["--write", "a.md"], cwd, b"", env)
        if code in (0, None) or open(os.path.join(cwd, "a.md")).read() != "# x #\n":
            return "a file is written although the configuration is invalid", {"code": code, "out": out.decode(), "err": err.decode(errors="replace")[-600:]}
        return None
    if code != 0 or got["out"] != r["out"]:
        return "the settings in force are not those of the highest layers", got
    code, out, err = run(args + ["--check"], cwd, b"", env)
    got = {"code": code, "out": out.decode(errors="replace"), "err": err.decode(errors="replace")[-600:]}
    if not r["some"]:
        return None if code not in (0, None) and "no input files" in got["err"] else ("without patterns there is nothing to do", got)
    base = os.path.join(d, "conf" if "cfg" in [f["at"] for f in r["files"]] else "out")
    named = sorted(os.path.relpath(l[:-len(": not formatted")], base) for l in got["err"].split("\n") if l.endswith(": not formatted"))
    want = sorted(os.path.normpath(p.lstrip("/")) if not p.startswith("conf/") else p[5:] for p in r["picked"])
    if named != want or (code == 0) != (not want):
        return "the patterns in force are not those of the highest layers", dict(got, named=named, want=want)
    return None


def config_replay(c, recs):
    uniq = {}
    for r in recs:
        uniq.setdefault(json.dumps([r["files"], r["arg"]], sort_keys=True), r)
    recs = list(uniq.values())
    with cli.Cli() as prog:
        for r, bad in zip(recs, prog.each(lambda r, d: config_scene(prog.run, r, d), recs)):
            c.traces += 1
            if bad:
                c.violation(bad[0], scene=r, got=bad[1])
    for r in recs[:: max(1, len(recs) // 3)]:
        c.sample(r)


@check("C12")
def c12(c, deep):
    n = 1500 if deep else 150
    one = ["line_width"]
    jobs = [config_job(0, 0, sources=["home", "mid"]), config_job(1, 1, names=sorted(BASIC), sources=["sys", "cwd"]), config_job(3, 3, n, names=one, args=(0, 33)), config_job(4, 4, n, names=["heading.proper_nouns", "heading.sentence_case"])]
    jobs += [config_job(k, k, n, args=(0, 50), seed=SEED * 1000 + k) for k in (3, 8, 16)] + [config_job(5, 5, n, names=["include", "exclude", "git_aware", "line_width"])]
    jobs += [config_job(4, 4, n, names=["code_block.formatters.fa", "code_block.formatters.fb", "code_block.fence_char"], seed=SEED * 1000 + 40)]
    jobs += [config_job(2, 3, n, wrong=True, sources=["home", "xdg", "mid", "cwd"], seed=SEED * 1000 + 41)]
    # a layer which sets a value back which a layer below it has set
    twice = c.tlc([config_job(2, 2, sources=["sys", "home", "xdg", "cwd"], twice=True)])
    config_replay(c, c.tlc(jobs) + some(twice, 0 if deep else 400))


@check("C13")
def c13(c, deep):
    n = 1500 if deep else 120
    # every value of every setting, alone
    jobs = [config_job(1, 1, sources=["cwd"], wrong=True), config_job(0, 1, names=["line_width"], sources=["cfg"], wrong=True, args=(0, 1, 7, 8, 50))]
    # every short string over the characters of thematic breaks
    jobs += [config_job(1, 1, n if not deep else 0, names=["thematic_break.style", "styles"], sources=["cfg"], wrong=True)]
    # two values which exclude each other, and the layers which hide them
    dash = ["punctuation.en_dash", "punctuation.em_dash"]
    jobs += [config_job(2, 2, 0, names=dash, sources=["cfg"])] if deep else []
    jobs += [config_job(2, 2, n, names=dash, sources=["cwd"]), config_job(3, 4, n, names=dash, sources=["home", "cwd"], wrong=True)]
    jobs += [config_job(k, k, n, wrong=True, args=(0, 0, 7, 8, 50), seed=SEED * 1000 + k) for k in (2, 3, 5)]
    jobs += [config_job(k, k, n, args=(0, 8, 300), seed=SEED * 1000 + k + 20) for k in (8, 20)]
    config_replay(c, c.tlc(jobs))
    # in every kind of container, and wherever else the code for a setting may differ
    n = 800 if deep else 80
    predict(c, c.tlc(code_sims([1, 3], 2 * n) + punct_sims([4, 7], n) + heading_sims([3], n) + doc_sims("spelled,p,h,html,front,dirs,use,def", [4, 7], n, opts="OptLayout")))
    nest_replay(c, c.tlc(nest_sims([3, 5], 2 * n)))


# ------------------------------------------------------- Cli.tla, Diff.tla
def no_behaviour(c, res, what, traces):
    """TLC finds that a recorded trace is none of the specification when its steps cannot even be evaluated."""
    if not res.error:
        return False
    if "evaluating the nested" not in res.error:
        raise vf.ToolError("TLC failed on a trace:\n" + res.error)
    c.violation(what, error=res.error[-1500:], traces=[str(x)[:1000] for x in traces[:3]])
    return True


CLI_INV = ["EndsFormatted", "ListsWritten", "NamesUnformatted", "StatusTells", "OnlyWriteWrites", "OnceEach", "Emit"]


def cli_job(modes, files, args=3, blocks=1, sim=0, paths="AllPaths", targets="AllTargets", rights=("rw", "ro", "no", "bin"), workers=2, seed=None, least=0):
    cfg = mkcfg({"MinFiles": str(least), "MaxFiles": str(files), "MaxArgs": str(args), "MaxBlocks": str(blocks), "Modes": tla(set(modes)), "Paths": "<- " + paths,
                 "Targets": "<- " + targets, "Rights": tla(set(rights)), "Workers": str(workers), "Choices": "<- OneOf" if sim else "<- All"}, CLI_INV)
    return dict(module="MCCli", cfg=cfg, simulate=sim, depth=60 + files * (blocks + 3), seed=seed or SEED, timeout=800)


def some(recs, k):
    """All records, or a sample of k."""
    recs = sorted(recs, key=lambda r: json.dumps(r, sort_keys=True))
    return random.Random(SEED).sample(recs, k) if 0 < k < len(recs) else recs


FLAGS = {"write": ["--write"], "check": ["--check"], "diff": ["--diff"], "print": [], "stdin": ["--stdin"], "stdin-diff": ["--diff", "--stdin"],
         "stdin-write": ["--stdin", "--write"], "stdin-check": ["--check", "--stdin"], "dash": ["-"], "dash-diff": ["-d", "-"]}
LONG_AGO = 1_000_000_000


def cli_scene(run, r, d, threads, diffs):
    """Lay out the tree of a scenario, run the program on it, and compare everything that can be seen."""
    w = os.path.join(d, "w")
    for sub in ("", "sub", "sub/deep", "d.md", "empty", ".hid"):
        os.makedirs(os.path.join(w, sub), exist_ok=True)
        os.chmod(os.path.join(w, sub), 0o1777)
    data, seen = {}, {}
    for f in r["files"]:
        path = os.path.join(w, f["path"])
        src = f["src"].encode() + (b"x \xff\xfe y\n" if f["right"] == "bin" else b"")
        cli.write(path, src)
        if f["right"] in ("rw", "written", "bin"):
            os.chown(path, cli.NOBODY, cli.NOBODY)
        os.chmod(path, 0 if f["right"] == "no" else 0o644 if f["right"] == "ro" else 0o640)
        os.utime(path, (LONG_AGO, LONG_AGO))
        data[f["path"]] = f["out"].encode() if f["right"] == "written" else src
        seen[f["path"]] = os.stat(path).st_mode
    if "file" in r["links"]:
        os.symlink("a.md", os.path.join(w, "l.md"))
    if "dir" in r["links"]:
        os.symlink("sub", os.path.join(w, "lsub"))
    stdin = r["input"].encode() + (b"\xff\n" if r["bad"] else b"")
    code, out, err = run(FLAGS[r["mode"]] + r["args"], w, stdin if FLAGS[r["mode"]] and r["mode"][:2] in ("st", "da") else b"", {"RAYON_NUM_THREADS": str(threads)})
    err = err.decode(errors="replace")
    got = {"code": code, "out": out.decode(errors="replace")[:3000], "err": err[-1500:]}
    # the tree
    for path, want in data.items():
        full = os.path.join(w, path)
        if not os.path.isfile(full):
            return "a file is lost", dict(got, path=path)
        have = open(full, "rb").read()
        if have != want:
            return "a file does not hold what it should", dict(got, path=path, have=have.decode(errors="replace"), want=want.decode(errors="replace"))
        st = os.stat(full)
        right = [f["right"] for f in r["files"] if f["path"] == path][0]
        if right != "written" and st.st_mtime != LONG_AGO:
            return "a file is written although its text stays", dict(got, path=path)
        if st.st_mode != seen[path]:
            return "a file has other permissions", dict(got, path=path)
    links = {"l.md"} if "file" in r["links"] else set()
    have = {os.path.relpath(os.path.join(b, n), w) for b, _, ns in os.walk(w) for n in ns}
    if have != set(data) | links:
        return "files were added or lost", dict(got, have=sorted(have))
    if links and not os.path.islink(os.path.join(w, "l.md")):
        return "a link is replaced", got
    # the status
    if (code != 0) != (r["code"] != 0) or code is None or code < 0 or code > 100:
        return "the exit status is wrong", got
    # standard error
    lines = sorted(l for l in err.split("\n") if l)
    if any(l[0] == "Error reading" and l[1] == "stdin" for l in r["err"]):
        return None if err.startswith("Error") and not out else ("unreadable input is not reported", got)
    want = []
    for e in r["err"]:
        want.append("%s:%d: warning: undefined reference link: [%s]" % (e[1], e[2], e[3]) if e[0] == "warning" else
                    "%s: not formatted" % e[1] if e[0] == "not formatted" else "%s %s:" % (e[0], e[1]))
    have = [": ".join(l.split(": ")[:1]) + ":" if l.startswith("Error ") else l for l in lines]
    if sorted(have) != sorted(want):
        return "the messages are wrong", dict(got, want=sorted(want))
    # standard output
    stopped = any(e[0].startswith("Error") for e in r["err"])
    if r["mode"] == "write":
        if sorted(l for l in out.decode().split("\n") if l) != sorted(r["out"]):
            return "the files listed are not the files written", got
    elif r["mode"] == "check":
        if out:
            return "something is printed", got
    elif "diff" in r["mode"]:
        keep = lambda s: [l.replace("\0", "\n") for l in re.findall("[^\0]*\0|[^\0]+", s.replace("\n", "\0"))]
        diffs.append((r, got, {"sections": [{"name": s["name"], "src": keep(s["src"]), "out": keep(s["out"])} for s in r["out"]], "lines": keep(out.decode())}))
    else:
        want = "".join(r["out"]).encode()
        if out != want and not (stopped and out.startswith(want)):
            return "the text printed is not the formatted text", dict(got, want=want.decode())
    return None


def cli_replay(c, recs, threads=(1, 4)):
    uniq = {}
    for r in recs:
        key = json.dumps([r["mode"], sorted([f["path"], f["src"], f["right"]] for f in r["files"]), r["args"]])
        r["err"].sort(key=json.dumps)
        uniq.setdefault(key, r)
    recs = [(r, t) for i, r in enumerate(uniq.values()) for t in (threads if r["mode"] in ("write", "check") else threads[:1])]
    diffs = []
    with cli.Cli() as prog:
        for (r, t), bad in zip(recs, prog.each(lambda x, d: cli_scene(prog.run, x[0], d, x[1], diffs), recs)):
            c.traces += 1
            if bad:
                c.violation(bad[0], scene=r, threads=t, got=bad[1])
    # the diffs are traces which the specification of diffs has to accept
    parts = [p for p in ([diffs[i::6] for i in range(6)] if len(diffs) > 60 else [diffs]) if p]
    jobs = []
    for i, part in enumerate(parts):
        path = os.path.join(vf.BUILD, "tmp", "diffs-%d-%s-%d.ndjson" % (os.getpid(), c.pid, i))
        with open(path, "w") as f:
            f.write("".join(json.dumps(x[2]) + "\n" for x in part))
        jobs.append(dict(module="Diff", cfg=mkcfg({"File": tla(path)}, ["Emit"]), timeout=800))
    for part, job, res in zip(parts, jobs, vf.tlc_jobs(jobs)):
        if no_behaviour(c, res, "what the program prints is no diff", part):
            continue
        c.states += res.distinct
        c.transitions += res.states
        if {x["t"] for x in res.records} != set(range(1, len(part) + 1)):
            raise vf.ToolError("Diff: not every trace was decided")
        for x in res.records:
            c.traces += 1
            if x["verdict"] != "right":
                r, got, _ = part[x["t"] - 1]
                c.violation(x["verdict"], scene=r, line=x["k"], got=got)
    for i in range(len(parts)):
        os.unlink(os.path.join(vf.BUILD, "tmp", "diffs-%d-%s-%d.ndjson" % (os.getpid(), c.pid, i)))
    for r, t in recs[:: max(1, len(recs) // 3)]:
        c.sample(r)


@check("C10")
def c10(c, deep):
    n = 2500 if deep else 180
    # every small tree and argument list, in every order of two workers
    recs = some(c.tlc([cli_job(["write", "check"], 1, 1, paths="FewPaths", targets="FewTargets", rights=["rw", "ro"])]), 0 if deep else 250)
    jobs = [cli_job(["write", "check"], 2, 2, 2, n, paths="LinkPaths")]
    jobs += [cli_job(["write", "check"], f, a, b, n, seed=SEED * 1000 + f, least=m) for f, a, b, m in ((1, 1, 3, 1), (3, 3, 2, 2), (5, 4, 2, 4), (12, 3, 2, 6))]
    jobs += [cli_job(["write"], 12, 5, 2, n // 4, rights=["rw"], least=9, workers=3), cli_job(["check"], 4, 6, 1, n // 2, rights=["rw"], least=3)]
    cli_replay(c, recs + c.tlc(jobs))


@check("C11")
def c11(c, deep):
    n = 2500 if deep else 250
    look = ["diff", "print"]
    pipe = ["stdin", "stdin-diff", "stdin-write", "stdin-check", "dash", "dash-diff"]
    recs = some(c.tlc([cli_job(look, 1, 1, paths="FewPaths", targets="FewTargets", rights=["rw", "no"]), cli_job(pipe, 1, 0, paths="FewPaths", targets="FewTargets", rights=["rw", "bin"])]), 0 if deep else 400)
    jobs = [cli_job(look, f, a, b, n, seed=SEED * 1000 + f + b, least=m) for f, a, b, m in ((1, 1, 4, 1), (1, 1, 12, 1), (3, 3, 3, 2), (6, 3, 5, 3))]
    jobs += [cli_job(["diff"], 1, 1, 25, n, rights=["rw"], least=1), cli_job(pipe, 1, 0, 8, n, least=1, rights=["rw"]), cli_job(pipe, 3, 2, 3, n, seed=SEED * 1000 + 50)]
    cli_replay(c, recs + c.tlc(jobs), threads=(2,))


# ------------------------------------------------------------- Collect.tla
COLLECT_INV = ["ExactlyChosen", "ExclusionWins", "OnceEach", "Emit"]


def collect_job(lo, hi=None, sim=0, files="AllFiles", inc="AllPats", exc="AllPats", lines="AllLines", places=("top", "docs", "info"), bases="BaseSet", awares=(True, False),
                kinds=("file", "inc", "exc", "ign"), seed=None):
    hi = hi or lo
    cfg = mkcfg({"MinLen": str(lo), "MaxLen": str(hi), "Files": "<- " + files, "Includes": "<- " + inc, "Excludes": "<- " + exc, "Lines": "<- " + lines, "Places": tla(set(places)),
                 "Bases": "<- " + bases, "Awares": tla(set(awares)), "Kinds": tla(set(kinds)), "Choices": "<- OneOf" if sim else "<- All"}, COLLECT_INV)
    return dict(module="MCCollect", cfg=cfg, simulate=sim, depth=hi + 20, seed=seed or SEED, timeout=800)


def collect_scene(run, r, d):
    """A tree whose files each hold a word of their own: the program prints which it treats, in order."""
    top = os.path.join(d, "top")
    base = os.path.join(top, r["base"])
    os.makedirs(os.path.join(top, ".git", "info"))
    os.makedirs(os.path.join(base, "empty", "deeper"))
    cli.write(os.path.join(top, ".git", "HEAD"), "ref: refs/heads/main\n")
    words = {}
    for i, path in enumerate(sorted(r["tree"])):
        words["w%dw" % i] = path
        if path == "l.md" and r["linked"]:
            os.symlink("a.md", os.path.join(top, path))
        else:
            cli.write(os.path.join(top, path), "w%dw\n" % i)
    for path, lines in r["ign"]:
        cli.write(os.path.join(top, path), "# ignored\n\n" + "\n".join(lines) + "\n")
    conf = os.path.join(base, "given.toml" if r["from"] == "config" else ".hongdown.toml")
    text = "include = %s\nexclude = %s\n" % (json.dumps(r["inc"]), json.dumps(r["exc"])) + ("" if r["aware"] else "git_aware = false\n")
    cli.write(conf, text)
    cwd = {"base": base, "below": os.path.join(base, "empty", "deeper"), "config": d}[r["from"]]
    code, out, err = run(["--config", conf] if r["from"] == "config" else [], cwd)
    got = {"code": code, "out": out.decode(errors="replace"), "err": err.decode(errors="replace")[-600:]}
    have = [words[w] for w in got["out"].split() if w in words]
    if code != 0 or have != r["order"]:
        what = "a file is treated more than once" if len(set(have)) < len(have) else "the files are not in order" if sorted(have) == sorted(r["order"]) else "the files are not those of the patterns"
        return what, dict(got, have=have)
    return None


def collect_replay(c, recs):
    recs = list({json.dumps(r, sort_keys=True): r for r in recs}.values())
    with cli.Cli() as prog:
        for r, bad in zip(recs, prog.each(lambda r, d: collect_scene(prog.run, r, d), recs)):
            c.traces += 1
            if bad:
                c.violation(bad[0], scene=r, got=bad[1])
    for r in recs[:: max(1, len(recs) // 3)]:
        c.sample(r)


@check("C14")
def c14(c, deep):
    n = 3000 if deep else 250
    recs = some(c.tlc([collect_job(4, 4, files="FewFiles", inc="FewPats", exc="FewPats", lines="FewPats", places=["top", "docs"], bases="TopBase")]), 0 if deep else 250)
    recs += c.tlc([collect_job(k, k, n, seed=SEED * 1000 + k) for k in (6, 10, 16)] + [collect_job(24, 24, n, kinds=["file", "inc", "exc"]), collect_job(14, 14, n, kinds=["file", "inc", "ign"], awares=[True])])
    collect_replay(c, recs)
    # directories and files given by name
    jobs = [cli_job(["print"], f, a, 1, n, seed=SEED * 1000 + f, least=m, rights=["rw"]) for f, a, m in ((4, 2, 2), (8, 3, 5), (14, 3, 10))]
    cli_replay(c, c.tlc(jobs), threads=(2,))


# ------------------------------------------------------ Pipe.tla, ExtFmt.tla
EXT_INV = ["Untouched", "OneWarningEach", "RunsOnlyFor", "Emit"]
EXT_OPS = ["R", "r", "C", "c", "o", "e", "f", "g", "q", "n", "m", "w", "b", "p", "i", "u", "O", "E"]
EXT_CTX = ["top", "quote", "quote2", "alert", "item", "item2", "num", "itemq", "qitem", "dd", "dd2", "kept", "note"]
EXT_LANGS = ["none", "fa", "fb", "FA", "fab", "meta", "off", "offmeta", "notoff", "only", "comma", "other"]


def pipe_job(n, units):
    cfg = mkcfg({"MaxLen": str(n), "Ops": tla({"R", "r", "C", "o", "e", "i", "u", "h", "p", "z"}), "Input": str(units), "Cap": "1"}, ["Decided", "NothingLost"], ["Finishes"])
    return dict(module="Pipe", cfg=cfg, timeout=800)


def ext_job(lo, hi=None, sim=0, ops=EXT_OPS, ends=("x0", "x3", "k", "missing"), length=3, lines=3, ctxs=EXT_CTX, langs=EXT_LANGS, secs=(20,), opts="OptSet", starts=("none",), seed=None):
    hi = hi or lo
    cfg = mkcfg({"MinLen": str(lo), "MaxLen": str(hi), "Ops": tla(set(ops)), "Endings": tla(set(ends)), "ScriptLen": str(length), "Contexts": tla(set(ctxs)), "Langs": tla(set(langs)),
                 "Lines": str(lines), "Secs": tla(set(secs)), "Starts": tla(set(starts)), "Opts": "<- " + opts, "Choices": "<- OneOf" if sim else "<- All"}, EXT_INV)
    return dict(module="MCExtFmt", cfg=cfg, simulate=sim, depth=hi * (lines + 2) + 16, seed=seed or SEED, timeout=800)


def ext_replay(c, recs, big=0):
    """Give the scripts to the real formatter host, and look at the text, the warnings, the runs and the time."""
    actor = cli.build_actor()
    recs = list({json.dumps(r, sort_keys=True): r for r in recs}.values())
    with cli.Cli() as prog:
        reqs = []
        for i, r in enumerate(recs):
            logs = [os.path.join(prog.root, "%d-%s" % (i, l)) for l in ("fa", "fb")]
            cmd = lambda log, s: ["/nonexistent/formatter"] if s == ["missing"] else [actor, log] + s
            r["logs"] = logs
            fs = {l: {"command": cmd(log, s), "timeout": r["secs"]} for l, log, s in zip(("fa", "fb"), logs, (r["sa"], r["sb"]))}
            reqs.append({"src": r["src"], "opts": dict(r["opts"], code_formatters=fs), "want": ["ms", "once"]})
        # those which wait wait side by side, and first
        order = sorted(range(len(recs)), key=lambda i: -(recs[i]["slow"] * recs[i]["secs"]))
        res = dict(zip(order, harness([reqs[i] for i in order], threads=40, limit=90)))
        for i, r in enumerate(recs):
            g = res[i]
            c.traces += 1
            runs = [os.path.getsize(l) if os.path.exists(l) else 0 for l in r.pop("logs")]
            data = dict(src=r["src"], opts=r["opts"], scripts=[r["sa"], r["sb"]], got={k: v if len(str(v)) < 3000 else str(v)[:3000] for k, v in g.items()}, runs=runs)
            if "out" not in g:
                c.violation("formatting does not finish", **data)
            elif g["out"] != r["out"]:
                c.violation("a block is not what its formatter must make of it", want=r["out"][:3000], **data)
            elif len(g["warn"]) != len(r["warns"]) or sum("'fa'" in w[1] for w in g["warn"]) != r["warns"].count("fa") or any("formatter" not in w[1] or ("'fa'" in w[1]) == ("'fb'" in w[1]) for w in g["warn"]):
                c.violation("the failures of formatters are not reported once each", want=r["warns"], **data)
            elif runs != [r["runs"]["fa"], r["runs"]["fb"]]:
                c.violation("blocks reach formatters they must not reach", want=r["runs"], **data)
            elif r["slow"] and g["ms"] > 1000 * r["slow"] * r["secs"] + 9000:
                c.violation("formatting does not keep to its timeouts", **data)
    for r in recs[:: max(1, len(recs) // 3)]:
        c.sample(r if len(r["out"]) < 2000 else r["sa"])


@check("C15")
def c15(c, deep):
    n = 2500 if deep else 200
    c.tlc([pipe_job(4 if deep else 3, 3)])
    few = [o for o in EXT_OPS if o not in "OE"]
    jobs = [ext_job(k, k, n, seed=SEED * 1000 + k) for k in (1, 2, 4)] + [ext_job(3, 3, n, ops=few, length=1, ends=["x0"]), ext_job(8, 8, n // 4, ops=["o", "C", "f"], length=1, lines=1)]
    jobs += [ext_job(2, 2, n // 2, ops=["O", "E", "R", "C", "c", "i", "u", "p", "e"], length=3, langs=["fa", "fb"], ctxs=["top", "item2"], starts=["none", "big"])]
    jobs += [ext_job(1, 1, 800 if deep else 60, ops=["z", "s", "h", "o", "u", "O", "C", "E"], length=4, secs=[1, 7], langs=["fa", "fb"], seed=SEED * 1000 + 30)]
    ext_replay(c, c.tlc(jobs))


# ----------------------------------------------------- WasmOpts.tla, JsApi.tla
WASM_INV = ["Absent", "Outside", "OneEach", "Emit"]


def wasm_job(lo, hi=None, sim=0, wrong="Maybe", names=None, seed=None):
    hi = hi or lo
    cfg = mkcfg({"MinLen": str(lo), "MaxLen": str(hi), "Names": "<- Everything" if names is None else tla(set(names)), "Wrong": "<- " + wrong, "Choices": "<- OneOf" if sim else "<- All"}, WASM_INV)
    return dict(module="MCWasmOpts", cfg=cfg, simulate=sim, depth=2 * hi + 8, seed=seed or SEED, timeout=800)


def tabs(text):
    """Tabs as JSON spells them."""
    return text.replace("\t", "\\t")


def wasm_replay(c, recs, given=None):
    """The options object, as it comes out of the JavaScript functions if these were run, and what the code makes of it."""
    recs = [dict(r, js=tabs(unph(r["js"])), want=[(k, tabs(unph(v))) for k, v in r["want"]]) for r in {json.dumps(r, sort_keys=True): r for r in recs}.values()]
    for r, g in zip(recs, harness([{"op": "js", "js": r["js"], "src": unph(r["src"])} for r in recs])):
        c.traces += 1
        want = {k: json.loads(v) for k, v in r["want"]}
        for k in want:
            if k in ("heading_proper_nouns", "heading_common_nouns"):
                want[k] = [json.loads(x) for x in want[k]]
            elif k in ("en_dash", "em_dash"):
                want[k] = want[k] or False
        got = g.get("opts")
        if got is not None:
            got = {k: got[k].strip() if k == "thematic_break_style" else got[k] for k in want if k in got}
        if got != want:
            c.violation("options of the WebAssembly API stand for other settings", js=r["js"], want=want, got=g)
        elif g.get("plain") is not True:
            c.violation("options of the WebAssembly API change what has no option", js=r["js"], got=g)
        elif r["out"] and (g["out"] != unph(r["out"]) or g["outw"] is not None):
            c.violation("options of the WebAssembly API format differently", js=r["js"], want=unph(r["out"]), got=g)
    for r in recs[:: max(1, len(recs) // 3)]:
        c.sample(r["js"])


def jsapi_replay(c, recs, objects):
    """Run the JavaScript functions of packages/wasm around a module which records its calls."""
    root = tempfile.mkdtemp(prefix="hd-js-", dir="/tmp")
    try:
        shutil.copytree(os.path.join(REPO, "packages/wasm/src"), os.path.join(root, "src"))
        write = lambda n, s: (os.makedirs(os.path.dirname(os.path.join(root, n)), exist_ok=True), open(os.path.join(root, n), "w").write(s))
        write("package.json", json.dumps({"type": "module", "imports": {"#wasm-loader": "./loader.js"}}))
        write("loader.js", "export const loadWasmBuffer = () => globalThis.__hd.loader();\n")
        fn = lambda js, k: "export function %s(...a) { return globalThis.__hd.call(\"%s\", a); }\n" % (js, k)
        write("pkg/hongdown.js", "export default (x) => globalThis.__hd.start(x);\n" + fn("format", "format") + fn("formatWithWarnings", "warn") + fn("formatWithCodeFormatter", "code"))
        scenes, wants = [], []
        for i, r in enumerate(recs):
            some_ = json.loads(tabs(unph(objects[i % len(objects)]["js"]))) if objects else {}
            obj = {"none": {}, "some": some_, "wrong": {"lineWidth": "wrong"}}
            scenes.append({"calm": i % 2 == 0, "events": [dict(e, opts=None) if e.get("opts") == "none" else dict(e, opts=obj[e["opts"]]) if e["e"] == "call" else e for e in r["events"]]})
            for e in scenes[-1]["events"]:
                if e.get("opts", 0) is None:
                    del e["opts"]
            wants.append([dict(fn=x["fn"], input="input%d" % k, opts=obj[x["opts"]], cb=x["cb"], answer="lc%d" % k if x["cb"] == "function" else None) for k, x in enumerate(r["reached"])])
        p = subprocess.run(["node", "--experimental-strip-types", "--no-warnings", os.path.join(os.path.dirname(os.path.abspath(__file__)), "jsapi.mjs"), root],
                           input="\n".join(map(json.dumps, scenes)) + "\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
        res = [json.loads(l) for l in p.stdout.split("\n") if l]
        if len(res) < len(recs) and not res and p.returncode != 0 and "index.ts" not in p.stderr:
            raise ToolError("node: " + p.stderr[-3000:])
    finally:
        shutil.rmtree(root, ignore_errors=True)
    # how a missing callback or a missing object is passed on does not matter
    plain = lambda x: json.dumps([x["fn"], x["input"], {k: v for k, v in (x["opts"] or {}).items() if k != "codeFormatter"}, x["answer"], x["cb"] == "function"], sort_keys=True)
    for r, sc, want, g in zip(recs, scenes, wants, res + [{"ends": "the functions do not run", "stderr": p.stderr[-1500:]}] * (len(recs) - len(res))):
        c.traces += 1
        if g["ends"] != r["ends"]:
            c.violation("calls of the JavaScript functions do not end as they must", scene=sc, want=r["ends"], got=g)
        elif g["loads"] != 1 or g["inits"] != 1 or g["early"]:
            c.violation("the module is not initialised once before it is called", scene=sc, got=g)
        elif sorted(map(plain, g["reached"])) != sorted(map(plain, want)):
            c.violation("calls reach the module with other options", scene=sc, want=want, got=g["reached"])


def jsapi_job(n, kinds=("format", "warn", "code"), opts=("none", "some", "wrong"), cbs=("absent", "function", "null")):
    cfg = mkcfg({"MaxCalls": str(n), "Kinds": tla(set(kinds)), "OptSets": tla(set(opts)), "Callbacks": tla(set(cbs))}, ["Once", "NotBefore", "Each", "Emit"], ["AllEnd"])
    return dict(module="MCJsApi", cfg=cfg, timeout=800)


@check("C21")
def c21(c, deep):
    n = 6000 if deep else 500
    # every option with every value within and outside of its domain
    recs = c.tlc([wasm_job(0, 1)] + [wasm_job(k, k, n, seed=SEED * 1000 + k) for k in (2, 3, 6, 12)] + [wasm_job(26, 26, n, wrong="Never", seed=SEED * 1000 + 26)])
    if deep:
        recs += c.tlc([wasm_job(1, 1, names=["thematic_break.style", "styles"]), wasm_job(26, 26, n, seed=SEED * 1000 + 27)])
    wasm_replay(c, recs)
    calls = c.tlc([jsapi_job(2)] + ([jsapi_job(3)] if deep else [jsapi_job(3, opts=("some",), cbs=("absent", "function"))]))
    jsapi_replay(c, some(calls, 0 if deep else 400), recs)


# ------------------------------------------------- documents of all the specs
def corpus_jobs(n, seed=None):
    """Jobs which write documents of every specification (n behaviours each)."""
    s = seed if seed is not None else SEED * 1000 + 500
    mix = "use,use2,useblk,def,h23,p,fnuse,fndef,fnnest,dirs,html"
    jobs = doc_sims(mix, [4, 8], n) + doc_sims("spelled,p,h,html,front,dirs,use,def", [4, 7], n, opts="OptLayout") + doc_sims("p,h,dirs,ugly,html", [6], n)
    # what ends a document, and definitions
    jobs += doc_sims("html,enable,use", [5], n)
    jobs += [wrap_job("words,big,wide,spans,escapes,emph,starts", 10, sim=n, seed=s)]
    jobs += nest_sims([4, 8], n) + table_sims([(2, 3), (3, 5)], n) + code_sims([2, 5], n) + heading_sims([5], n) + heading_sims([4], n, words="nouns,user", heads=2)
    jobs += punct_sims([3, 9], n) + inline_sims([1, 3, 6], n)
    return jobs


def corpus(c, n, seed=None):
    recs = {}
    for r in c.tlc(corpus_jobs(n, seed)):
        r.setdefault("opts", {})
        recs.setdefault((r["src"], json.dumps(r["opts"], sort_keys=True)), r)
    return list(recs.values())


# ---------------------------------------------------------------- Session.tla
SESSION_INV = ["WriteThenCheck", "OneResult", "Emit"]
CLI_OPS = ("stdin", "write", "check", "diff", "print", "edit")
TOML_NAMES = {"line_width": "line_width", "setext_h1": "heading.setext_h1", "setext_h2": "heading.setext_h2", "heading_sentence_case": "heading.sentence_case",
              "heading_proper_nouns": "heading.proper_nouns", "heading_common_nouns": "heading.common_nouns", "unordered_marker": "unordered_list.unordered_marker",
              "leading_spaces": "unordered_list.leading_spaces", "trailing_spaces": "unordered_list.trailing_spaces", "indent_width": "unordered_list.indent_width",
              "odd_level_marker": "ordered_list.odd_level_marker", "even_level_marker": "ordered_list.even_level_marker", "ordered_list_pad": "ordered_list.pad",
              "ordered_list_indent_width": "ordered_list.indent_width", "fence_char": "code_block.fence_char", "min_fence_length": "code_block.min_fence_length",
              "space_after_fence": "code_block.space_after_fence", "default_language": "code_block.default_language", "thematic_break_style": "thematic_break.style",
              "thematic_break_leading_spaces": "thematic_break.leading_spaces", "curly_double_quotes": "punctuation.curly_double_quotes",
              "curly_single_quotes": "punctuation.curly_single_quotes", "curly_apostrophes": "punctuation.curly_apostrophes", "ellipsis": "punctuation.ellipsis",
              "en_dash": "punctuation.en_dash", "em_dash": "punctuation.em_dash"}
PATHS = {"f1": "a.md", "f2": "sub/b.markdown", "f3": "c d.md", "f4": "sub/\u00e9\u6f22.md"}


def session_job(n, sim=0, ops=CLI_OPS, docs=2, files=3, sides=1, seed=None):
    cfg = mkcfg({"MinLen": str(n), "MaxLen": str(n), "Docs": "{%s}" % ", ".join(map(str, range(1, docs + 1))), "Files": tla({"f%d" % k for k in range(1, files + 1)}),
                 "Ops": tla(set(ops)), "Sides": str(sides), "Eols": tla(set(EOLS)), "Choices": "<- OneOf" if sim else "<- All"}, SESSION_INV, ["OnlyWriteWrites"])
    return dict(module="MCSession", cfg=cfg, simulate=sim, depth=n + 6, seed=seed or SEED, timeout=800)


EOLS = {"lf": "\n", "crlf": "\r\n", "cr": "\r"}


def with_eol(text, eol):
    return text.replace("\n", EOLS[eol])


def known_texts(c, docs):
    """What formatting makes of every document, and of that again."""
    ask = lambda ts: harness([{"op": "fmt", "src": t, "opts": r["opts"], "want": []} for r, t in zip(docs, ts)])
    first = ask([r["src"] for r in docs])
    second = ask([g.get("out", "") for g in first])
    good = []
    for r, a, b in zip(docs, first, second):
        c.traces += 1
        if "out" not in a or "out" not in b:
            c.violation("formatting does not come to an end", src=r["src"], opts=r["opts"], got=[a, b])
        elif a["outw"] is not None or b["outw"] is not None:
            c.violation("the two functions of the library differ", src=r["src"], opts=r["opts"], got=[a, b])
        elif b["out"] != a["out"]:
            c.violation("formatting again changes the text", src=r["src"], opts=r["opts"], first=a["out"], second=b["out"])
        else:
            good.append(dict(src=r["src"], opts=r["opts"], out=a["out"], warn=a["warn"], warn2=b["warn"]))
    return good


class Bound:
    """The documents of a session: some as their authors wrote them, some already formatted."""

    def __init__(self, rng, rec, pool):
        pool = [r for r in pool if "\r" not in r["src"] and r["out"]] or pool
        dirty = [r for r in pool if r["src"] != r["out"]] or pool
        self.eol = rec["eol"]
        ids = sorted({1, 2, 3, 4})
        self.docs = {d: rng.choice(pool if d in rec["clean"] else dirty) for d in ids}
        self.clean = set(rec["clean"])

    def text(self, t):
        d = self.docs[t["d"]]
        return d["out"] if t["f"] else with_eol(d["out"] if t["d"] in self.clean else d["src"], self.eol)

    def warn(self, t):
        d = self.docs[t["d"]]
        return d["warn2"] if t["f"] or t["d"] in self.clean else d["warn"]


def lib_replay(c, recs, pool):
    rng = random.Random(SEED)
    bound = [Bound(rng, r, pool) for r in recs]
    reqs = [{"op": "hist", "steps": [[{"src": b.text(x["t"]), "opts": b.docs[x["t"]["d"]]["opts"], "entry": x["entry"]} for x in e["calls"]] for e in r["hist"]]} for r, b in zip(recs, bound)]
    for r, b, q, g in zip(recs, bound, reqs, harness(reqs)):
        c.traces += 1
        for e, calls, got in zip(r["hist"], q["steps"], g.get("steps") or [None] * len(r["hist"])):
            for x, o, call, y in zip(e["calls"], e["outs"], calls, got or [{}] * len(calls)):
                if y.get("out") != b.text(o) or ("warn" in y and y["warn"] != b.warn(x["t"])):
                    c.violation("a call of a history gives something else", call=call, want=b.text(o), got=y, history=q)
                    break


def session_scene(run, r, b, d):
    w = os.path.join(d, "w")
    os.makedirs(os.path.join(w, "sub"))
    for p in (w, os.path.join(w, "sub")):
        os.chmod(p, 0o1777)
    opts = b.docs[1]["opts"]
    cli.write(os.path.join(w, ".hongdown.toml"), "".join("%s = %s\n" % (TOML_NAMES[k], "false" if v == "off" else json.dumps(v)) for k, v in sorted(opts.items())))

    def put(x, t):
        p = os.path.join(w, PATHS[x])
        cli.write(p, b.text(t))
        os.chown(p, cli.NOBODY, cli.NOBODY)
    start = r["files"]
    for x, t in start.items():
        put(x, t)
    lines = lambda t, name: ["%s:%d: warning: %s" % (name, l, m) for l, m in b.warn(t)]
    for e in r["hist"]:
        fs = sorted(e.get("fs", []))
        names = [PATHS[x] for x in fs]
        if e["op"] == "edit":
            put(fs[0], e["t"])
            continue
        if e["op"] == "stdin":
            code, out, err = run([e["mode"]] if e["mode"] in ("-", "--stdin") else [e["mode"], "-"], w, b.text(e["t"]).encode())
            want_err = lines(e["t"], "<stdin>")
            fine = (out != b"") == e["says"] if e["mode"] == "--diff" else out == b.text(e["out"]).encode()
            fine, why, ok = fine, "standard input gives something else", True
        else:
            code, out, err = run({"write": ["--write"], "check": ["--check"], "diff": ["--diff"], "print": []}[e["op"]] + names, w, b"")
            want_err = [l for x in fs for l in lines(e["texts"][x], PATHS[x])]
            ok = True
            if e["op"] == "write":
                fine, why = sorted(out.decode().split("\n")) == sorted([PATHS[x] for x in e["listed"]] + [""]), "--write lists other files than it had to change"
                for x, t in e["after"].items():
                    have = open(os.path.join(w, PATHS[x]), "rb").read()
                    if have != b.text(t).encode():
                        return "a file holds something else", dict(file=PATHS[x], event=e, have=have.decode(errors="replace"), want=b.text(t), code=code, err=err.decode(errors="replace"))
            elif e["op"] == "check":
                want_err += ["%s: not formatted" % PATHS[x] for x in e["listed"]]
                fine, why, ok = out == b"", "--check prints something", e["ok"]
            elif e["op"] == "diff":
                fine, why = [l[4:] for l in out.decode().split("\n") if l.startswith("--- ") and l[4:] in names] == [PATHS[x] for x in fs if x in e["listed"]] and (out != b"" or not e["listed"]), "--diff shows other files than those which are not formatted"
            else:
                fine, why = out == b.text(e["out"]).encode(), "a file is printed as something else"
        if not fine:
            return why, dict(event=e, have=out.decode(errors="replace"), code=code, err=err.decode(errors="replace"))
        # messages may hold line breaks
        have = sorted(l for l in err.decode(errors="replace").split("\n") if l)
        if have != sorted(l for m in want_err for l in m.split("\n") if l):
            return "the messages are others", dict(event=e, have=have, want=sorted(want_err))
        if (code == 0) != ok:
            return "the exit status is wrong", dict(event=e, code=code)
    return None


def session_replay(c, recs, pool):
    rng = random.Random(SEED)
    groups = {}
    for r in pool:
        groups.setdefault(json.dumps(r["opts"], sort_keys=True), []).append(r)
    groups = [g for _, g in sorted(groups.items())]
    todo = [(r, Bound(rng, r, groups[rng.randrange(len(groups))])) for r in recs]
    with cli.Cli() as prog:
        for (r, b), bad in zip(todo, prog.each(lambda x, d: session_scene(prog.run, x[0], x[1], d), todo)):
            c.traces += 1
            if bad:
                c.violation(bad[0], docs=b.docs, session=r, got=bad[1])
    for r in recs[:: max(1, len(recs) // 2)]:
        c.sample(r)


@check("C22")
def c22(c, deep):
    n = 4000 if deep else 250
    pool = known_texts(c, corpus(c, n))
    k = 3000 if deep else 200
    recs = c.tlc([session_job(m, k, docs=3) for m in (3, 6)] + [session_job(12, k, docs=4, files=4, seed=SEED * 1000 + 12)])
    session_replay(c, recs, pool)
    lib_replay(c, c.tlc([session_job(m, k * 2, ops=["lib"], docs=4, files=1, sides=s, seed=SEED * 1000 + m) for m, s in ((2, 4), (6, 3), (12, 2))]), pool)


@check("C01")
def c01(c, deep):
    recs = corpus(c, 6000 if deep else 300)
    pool = known_texts(c, recs + made(c, recs, deep) + real())
    k = 3000 if deep else 150
    session_replay(c, c.tlc([session_job(m, k, ops=["write", "check", "edit", "diff"], docs=3, seed=SEED * 1000 + m) for m in (3, 7)]), pool)


# ----------------------------------------------------------------- Stream.tla
STREAM_DEFAULTS = {"curly_double_quotes": True, "curly_single_quotes": True, "curly_apostrophes": False, "ellipsis": True, "en_dash": "off", "em_dash": "--",
                   "heading_sentence_case": False, "default_language": ""}
STREAM_CH = {"dq": 'c"', "ldq": "c\u201c", "rdq": "c\u201d", "lsq": "c\u2018", "rsq": "c\u2019", "ell": "c\u2026", "en": "c\u2013", "em": "c\u2014"}
_UNIT = re.compile(r"[ \t\n\r]+|[^\W_]+|.", re.S)


def units(text, chars):
    return ["s" if u.isspace() and u[0] in " \t\n\r" else "w" + u if len(u) > 1 or u.isalnum() else "c" + u for u in (_UNIT.findall(text) if not chars else re.findall(r"[ \t\n\r]+|.", text, re.S))]


def notes_in_order(toks):
    """Footnotes in the order in which the text, and then they themselves, refer to them
    (the parser numbers what definitions refer to by where these stand, and they are moved)."""
    body, notes, cur = [], {}, None
    for k in toks:
        if k[0] == "<fn":
            cur = notes.setdefault(k[1], [])
        (body if cur is None else cur).append(k)
        if k[0] == ">fn":
            cur = None
    order, todo = [], [k[1] for k in body if k[0] == "fnref"]
    while todo or len(order) < len(notes):
        n = todo.pop(0) if todo else next(x for x in notes if x not in order)
        if n not in order and n in notes:
            order.append(n)
            todo += [k[1] for k in notes[n] if k[0] == "fnref"]
    return body + [k for n in order for k in notes[n]]


def stream(toks, chars=False):
    """What a reader sees, as elements of Stream.tla; blanks are one blank, and link titles and raw HTML are on one line."""
    out = []
    for k in toks:
        tag = k[0]
        if tag == "t":
            for u in units(k[1], chars):
                if u != "s" or not out or out[-1] != "s":
                    out.append(u)
        elif tag == "code":
            out += ["code|" + k[1], "lit|" + k[2].rstrip("\r\n")]
        elif tag == "html":
            out.append("html|" + k[1].rstrip("\r\n"))
        elif tag == "htmlinline":
            out.append("tag|" + " ".join(k[1].split()))
        elif tag in ("<a", "<img"):
            out.append("%s|%s|%s" % (tag, k[1].replace(" ", "%20"), " ".join(k[2].split())))
        else:
            out.append("|".join(str(x) for x in k))
    return out


def stream_trace(r, g):
    o = dict(STREAM_DEFAULTS, **{k: v for k, v in r["opts"].items() if k in STREAM_DEFAULTS})
    dash = lambda v: "" if v in ("off", False, None) else v
    en, em = dash(o["en_dash"]), dash(o["em_dash"])
    chars = any(x.isalnum() for x in en + em)
    a, b = stream(notes_in_order(g["tok_in"]), chars), stream(notes_in_order(g["tok_out"]), chars)
    low = o["heading_sentence_case"]
    return {"in": a, "out": b, "fin": [x.lower() for x in a] if low else [], "fout": [x.lower() for x in b] if low else [],
            "o": {"sentence": bool(low), "double": o["curly_double_quotes"], "single": o["curly_single_quotes"], "apos": o["curly_apostrophes"], "dots": o["ellipsis"],
                  "en": units(en, chars), "em": units(em, chars), "default": o["default_language"], "ch": STREAM_CH}}


def stream_check(c, recs):
    """Record what readers see of source and formatted text, and let the specification go through both."""
    res = harness([{"op": "fmt", "src": r["src"], "opts": r["opts"], "want": ["tok"]} for r in recs])
    todo = []
    for r, g in zip(recs, res):
        if "out" not in g:
            c.violation("formatting does not come to an end", src=r["src"], opts=r["opts"], got=g)
        else:
            todo.append((r, g, stream_trace(r, g)))
    n = max(1, min(8, len(todo) // 40))
    parts = [todo[k::n] for k in range(n)]
    path = lambda k: os.path.join(vf.BUILD, "tmp", "stream-%d-%s-%d.ndjson" % (os.getpid(), c.pid, k))
    jobs = []
    for k, part in enumerate(parts):
        with open(path(k), "w") as f:
            f.write("".join(json.dumps(x[2]) + "\n" for x in part))
        jobs.append(dict(module="Stream", cfg=mkcfg({"File": tla(path(k))}, ["OnlyEnabled", "Emit"]), timeout=800))
    rules = collections.Counter()
    for k, (part, r) in enumerate(zip(parts, vf.tlc_jobs(jobs))):
        os.unlink(path(k))
        if no_behaviour(c, r, "what readers see cannot be followed", [x[2] for x in part]):
            continue
        c.states += r.distinct
        c.transitions += r.states
        best = {}
        for x in r.records:
            y = best.get(x["t"])
            if y is None or (x["verdict"] == "right", x["i"]) > (y["verdict"] == "right", y["i"]):
                best[x["t"]] = x
        if set(best) != set(range(1, len(part) + 1)):
            raise vf.ToolError("Stream: not every trace was decided")
        for t, x in sorted(best.items()):
            rec, g, tr = part[t - 1]
            c.traces += 1
            if x["verdict"] != "right":
                c.violation("readers see something else", src=rec["src"], opts=rec["opts"], got=g["out"], source=tr["in"][x["i"] - 1:x["i"] + 4], formatted=tr["out"][x["j"] - 1:x["j"] + 4])
            else:
                rules.update(x["used"])
    c.notes["rules used"] = dict(rules)


def made(c, recs, deep):
    """Documents made of documents: each container alone, everything with everything, long ones."""
    k = 12 if deep else 1
    return [x for n, length, parts, seed in ((900, 2, 24, 31), (900, 4, 8, 32), (400, 8, 4, 33)) for x in compose(c, recs, n * k, length, seed=SEED * 100 + seed, parts=parts)]


REAL_OPTS = [{"line_width": 80}, {"line_width": 40}, {"line_width": 200, "setext_h1": False, "setext_h2": False, "em_dash": "off", "ellipsis": False, "curly_double_quotes": False},
             {"line_width": 72, "heading_sentence_case": True, "unordered_marker": "*", "trailing_spaces": 1, "fence_char": "`", "min_fence_length": 3},
             {"line_width": 79, "leading_spaces": 0, "trailing_spaces": 1, "indent_width": 2, "curly_apostrophes": True, "en_dash": "--", "em_dash": "---", "default_language": "text"}]


def real():
    """The documents of the repository itself."""
    out = []
    for d, _, fs in sorted(os.walk(vf.REPO)):
        if any(x in ("target", "node_modules", ".git") for x in d.split(os.sep)):
            continue
        for f in sorted(fs):
            if f.endswith(".md"):
                src = open(os.path.join(d, f), encoding="utf-8").read()
                out += [dict(src=src, opts=o) for o in REAL_OPTS]
    return out


def same_with_any_eol(c, docs):
    """Session!F: a document means the same, and is formatted to the same text, with whichever line endings."""
    docs = [r for r in docs if "\r" not in r["src"] and "\n" in r["src"]]
    asked = [(r, e) for k, r in enumerate(docs) for e in ("lf", ("crlf", "cr")[k % 4 == 3])]
    got = harness([{"op": "fmt", "src": with_eol(r["src"], e), "opts": r["opts"], "want": []} for r, e in asked])
    for (r, e), a, b in zip(asked[1::2], got[::2], got[1::2]):
        c.traces += 1
        if "out" in a and b.get("out") != a["out"]:
            c.violation("with other line endings a document is formatted to something else", src=with_eol(r["src"], e), opts=r["opts"], expected=a["out"], got=b.get("out", b))


@check("C02")
def c02(c, deep):
    recs = corpus(c, 6000 if deep else 200)
    docs = recs + made(c, recs, deep) + real()
    stream_check(c, docs)
    same_with_any_eol(c, docs)
    for r in recs[:: max(1, len(recs) // 3)]:
        c.sample(r)


# ---------------------------------------------------------------- Compose.tla
FRAMES = ["bq", "alert", "ul", "ulp", "ol", "task", "dd", "fn"]


def compose(c, recs, n, length, frames=FRAMES, seed=None, parts=4):
    """Documents made of the given ones, which share their options."""
    groups = {}
    for r in recs:
        s = r["src"]
        if s.strip() and "\r" not in s and not s.startswith("---"):
            p = s.rstrip("\n").split("\n")
            piece = {"lines": p, "refs": "[^" in s, "notes": any("[^" in x and "]:" in x for x in p), "defs": any("]:" in x for x in p), "dirs": "<!-- hongdown" in s}
            if not (piece["notes"] and piece["dirs"]):
                groups.setdefault(json.dumps(r["opts"], sort_keys=True), []).append(piece)
    big = sorted(groups.items(), key=lambda g: -len(g[1]))[:parts]
    jobs, paths = [], []
    for k, (o, pieces) in enumerate(big):
        path = os.path.join(vf.BUILD, "tmp", "pieces-%d-%s-%d.ndjson" % (os.getpid(), c.pid, k))
        paths.append(path)
        with open(path, "w") as f:
            f.write("".join(json.dumps(p) + "\n" for p in pieces))
        cfg = mkcfg({"MinLen": str(length), "MaxLen": str(length), "File": tla(path), "Frames": tla(set(frames)), "Choices": "<- OneOf"}, ["Emit"])
        jobs.append(dict(module="MCCompose", cfg=cfg, simulate=n // parts, depth=4 * length + 8, seed=(seed or SEED) * 1000 + k, timeout=800))
    out = []
    for (o, _), j, r in zip(big, jobs, vf.tlc_jobs(jobs)):
        if r.error:
            raise vf.ToolError("TLC failed on Compose:\n" + r.error)
        c.states += r.distinct or r.states
        c.transitions += r.states
        out += [dict(src=x["src"], opts=json.loads(o)) for x in r.records]
    for p in paths:
        os.unlink(p)
    return out


# ------------------------------------------------------------------- Soup.tla
SNAKE = {v: k for k, v in TOML_NAMES.items()}


def soup_job(lo, hi=None, sim=0, kinds="line,block,mark,word", docs=None, options=0, seed=None, focus=""):
    hi = hi or lo
    cfg = mkcfg({"MinLen": str(lo), "MaxLen": str(hi), "Kinds": tla(set(kinds.split(","))), "File": tla(docs or os.path.join(vf.ROOT, "spec", "none.ndjson")), "MaxOpts": str(options), "Focus": tla(focus),
                 "Names": "<- Everything", "Choices": "<- OneOf" if sim else "<- All"}, ["Emit"])
    return dict(module="MCSoup", cfg=cfg, simulate=sim, depth=hi + options + 6, seed=seed or SEED, timeout=800)


def big_job(layers, sim=0, sizes=(1, 2, 300, 1000), nests=(2, 30, 300), widths=(8, 80), seed=None):
    cfg = mkcfg({"Sizes": tla(set(sizes)), "Nests": tla(set(nests)), "Widths": tla(set(widths)), "MaxLen": str(layers), "Choices": "<- OneOf" if sim else "<- All"}, ["Emit"])
    return dict(module="MCBig", cfg=cfg, simulate=sim, depth=layers + 4, seed=seed or SEED, timeout=800)


def soup_opts(r):
    return {SNAKE[k]: v for k, v in r["set"].items()} if r["n"] else {}


def grow(layers):
    inner = ""
    for l in reversed(layers):
        s, n = l["shape"], l["n"]
        inner = s["open"] * n + (inner or s["mid"]) + s["close"] * n
    return inner


def total(c, recs):
    """Formatting comes to an end for each of the texts, in both functions of the library."""
    uniq = {}
    for r in recs:
        uniq.setdefault((r["src"], json.dumps(r["opts"], sort_keys=True)), r)
    recs = list(uniq.values())
    got = harness([{"op": "fmt", "src": r["src"], "opts": r["opts"], "want": []} for r in recs], limit=60)
    refused = 0
    for r, g in zip(recs, got):
        c.traces += 1
        if "badopts" in g:
            refused += 1
            c.violation("a valid setting is refused", src=r["src"][:2000], opts=r["opts"], got=g)
        elif "out" not in g:
            c.violation("formatting does not come to an end", src=r["src"], opts=r["opts"], got=g)
        elif g["outw"] is not None:
            c.violation("the two functions of the library differ", src=r["src"], opts=r["opts"], got=g)
        elif not g["out"].endswith("\n") and r["src"].strip() and g["out"]:
            c.notes["no_final_newline"] = c.notes.get("no_final_newline", 0) + 1
    for r in [r for r in recs if len(r["src"]) < 2000][:: max(1, len(recs) // 3)]:
        c.sample(r)
    return recs


@check("C16")
def c16(c, deep):
    k = 20 if deep else 1
    # documents of the other specifications as material for edits
    docs = os.path.join(vf.BUILD, "tmp", "docs-%d.ndjson" % os.getpid())
    base = corpus(c, 400 if deep else 60)
    with open(docs, "w") as f:
        f.write("".join(json.dumps(r["src"].split("\n")) + "\n" for r in base if len(r["src"]) < 3000))
    jobs = [soup_job(2), soup_job(3, kinds="block", seed=SEED) if deep else soup_job(4, sim=1500, kinds="block,line")]
    jobs += [soup_job(3, 30, sim=1500 * k, options=6, seed=SEED * 1000 + i) for i in range(3)]
    jobs += [soup_job(20, 60, sim=150 * k, options=6, seed=SEED * 1000 + 10), soup_job(3, 25, sim=1000 * k, kinds="mark,word", options=6, seed=SEED * 1000 + 11)]
    jobs += [soup_job(1, 12, sim=700 * k, docs=docs, options=5, seed=SEED * 1000 + 20 + i) for i in range(2)]
    # what only runs under some settings
    jobs += [soup_job(2, kinds="mark,word", focus="heading")] + [soup_job(3, 8, sim=500 * k, kinds="mark,word", focus=f, seed=SEED * 1000 + 30) for f in ("heading", "table", "punctuation")]
    recs = [dict(src=r["src"], opts=soup_opts(r)) for r in c.tlc(jobs)]
    os.unlink(docs)
    recs += [dict(src=with_eol(r["src"], e), opts=r["opts"]) for r in base for e in ("crlf", "cr")]
    # tables of every shape, among them those without rows
    tables = [table_job("basic", 1, cols=2, ctxs=["top", "item"], sps=["tight"])] + table_sims([(1, 4), (2, 3), (4, 4)], 60 * k)
    recs += [dict(src=r["src"], opts={}) for r in c.tlc(tables)]
    # large texts
    recs += [dict(src=grow(r["layers"]), opts={"line_width": r["width"]}) for r in c.tlc([big_job(1, sizes=(300, 1000), nests=(300, 1000)), big_job(2, sim=2000 if deep else 200, seed=SEED)])]
    total(c, recs)


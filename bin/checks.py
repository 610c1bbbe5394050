"""The pipelines, one function per property (or per family of properties)."""
import collections
import random
import re
from vlib import ToolError, chars_to_str, load_known, out_to_str

CHECKS = {}


def check(*props):
    def d(f):
        for p in props:
            CHECKS[p] = f
        return f
    return d


# ---------------------------------------------------------------------------
# documents: DocGen -> harness doc -> DocTrace

def gen_docs(run, plan):
    """plan: [(profile, number, tokens, depth)]"""
    cases = []
    for k, (prof, num, tok, dep) in enumerate(plan):
        cfg = 'SPECIFICATION Spec\nCONSTANTS Profile = "%s"\n MaxTok = %d\n MaxDepth = %d\nCHECK_DEADLOCK FALSE\n' % (prof, tok, dep)
        for c in run.generate("DocGen", cfg, num, depth=40 * tok + 400, salt=k):
            c["prof"] = prof
            cases.append(c)
    for i, c in enumerate(cases):
        c["id"] = i + 1
    return cases


TRACECFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"


def doc_key(r):
    """identifies a document together with its options"""
    return dict(toks=r["toks"], cfg=r["cfg"])


def probes(run):
    """the listed findings, as cases"""
    return [dict(toks=e["key"]["toks"], cfg=e["key"]["cfg"], prof="finding") for e in load_known(run.prop) if "toks" in e.get("key", {})]


def run_docs(run, plan, aspects, mode="doc", extra=None):
    cases = gen_docs(run, plan) + probes(run)
    for i, c in enumerate(cases):
        c["id"] = i + 1
    recs = run.drive(mode, cases)
    verdicts = run.judge("DocTrace", TRACECFG, recs)
    bad = 0
    for r in recs:
        v = [a for a in verdicts[r["id"]] if a in aspects]
        if v:
            bad += 1
            run.violation(doc_key(r), "%s: html %r -> %r %s %s" % (",".join(v), r["html"], out_to_str(r["out"]), r["err"],
                                                                  run.details.get(r["id"], "")[:600]), r)
    return cases, recs, verdicts


def doc_cov(plan, recs, rule):
    import collections
    ev = collections.Counter()
    for r in recs:
        for t in r["toks"]:
            if t["k"] in "ovp":
                ev[t["e"]] += 1
    pick = sorted(recs, key=lambda r: len(r["html"]))
    smp = [dict(html=r["html"], markdown=out_to_str(r["out"])) for r in (pick[len(pick) // 4], pick[len(pick) // 2], pick[-1])]
    return dict(samples=smp, rule=rule, plan=[list(p) for p in plan], elements=dict(ev),
                distinct_nontrivial=len({r["html"] for r in recs if len(r["toks"]) > 3}))


@check("C03")
def c03(run):
    n = 12000 if run.thorough else 2500
    plan = [("block", n, 14, 5), ("block", n // 2, 30, 7), ("lists", n // 2, 18, 7), ("lists", n // 4, 30, 8)]
    _, recs, _ = run_docs(run, plan, {"meaning", "err"})
    return doc_cov(plan, recs, "random walks through DocGen (block and lists profiles): documents of nested block elements; non-trivial: more than 3 tokens")


@check("C04")
def c04(run):
    n = 12000 if run.thorough else 2500
    plan = [("inline", n, 12, 5), ("inline", n // 2, 24, 6)]
    _, recs, _ = run_docs(run, plan, {"meaning", "err"})
    return doc_cov(plan, recs, "random walks through DocGen (inline profile); non-trivial: more than 3 tokens")


@check("C05")
def c05(run):
    n = 15000 if run.thorough else 5000
    plan = [("code", n, 8, 5), ("code", n // 3, 20, 6)]
    _, recs, _ = run_docs(run, plan, {"meaning", "err"})
    return doc_cov(plan, recs, "random walks through DocGen (code profile); non-trivial: more than 3 tokens")


@check("C06")
def c06(run):
    n = 12000 if run.thorough else 3000
    plan = [("link", n, 8, 4), ("link", n // 3, 20, 5)]
    _, recs, _ = run_docs(run, plan, {"meaning", "err"})
    return doc_cov(plan, recs, "random walks through DocGen (link profile); non-trivial: more than 3 tokens")


@check("C16")
def c16(run):
    n = 10000 if run.thorough else 2500
    plan = [("opts", n, 14, 5), ("optsmix", n, 20, 6)]
    _, recs, _ = run_docs(run, plan, {"meaning", "opts", "err"})
    return doc_cov(plan, recs, "random walks through DocGen with random options; non-trivial: more than 3 tokens")


# ---------------------------------------------------------------------------
# texts: EscapeGen (all short texts) and DocGen (long ones)
SPECIALS = ['BSL', '*', '_', '-', '+', '.', '>', '<', '|', '$', '#', '=', '[', ']', '(', ')', '!', '~', '`', 'DQ', "'", '1', 'a', ' ', 'BR']
CTX = ["p", "word", "glued", "num", "li", "ol", "quote", "h", "em", "strong", "del", "a", "aftem", "br", "aft"]


def tset(xs):
    return "{" + ", ".join('"%s"' % x for x in xs) + "}"


def escape_cases(run, length, alphabet, ctxs, cid):
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxLen = %d\n Alphabet = %s\n Ctxs = %s\n" % (length, tset(alphabet), tset(ctxs))
    cs = run.enumerate("EscapeGen", cfg)
    for c in cs:
        c["prof"] = "exhaustive"
    return cs


def texts(run, aspects, mode, plan, exh):
    cases = gen_docs(run, plan) if plan else []
    seen = set()
    for k, (length, alpha, ctxs) in enumerate(exh):
        for c in escape_cases(run, length, alpha, ctxs, k):
            key = repr(c["toks"])
            if key not in seen:
                seen.add(key)
                cases.append(c)
    for i, c in enumerate(cases):
        c["id"] = i + 1
    recs = run.drive(mode, cases)
    verdicts = run.judge("DocTrace", TRACECFG, recs)
    for r in recs:
        v = [a for a in verdicts[r["id"]] if a in aspects]
        if v:
            run.violation(doc_key(r), "%s: html %r -> %r %s %s %s" % (",".join(v), r["html"], out_to_str(r["out"]), out_to_str(r["raw"]) if "raw" in r else "", r["err"],
                                                                     run.details.get(r["id"], "")[:600]), r)
    return recs


@check("C01")
def c01(run):
    n = 12000 if run.thorough else 1500
    plan = [("esc", n, 8, 4), ("mixed", n, 16, 5)]
    exh = [(2, SPECIALS, CTX)]
    if run.thorough:
        exh += [(3, SPECIALS, ["p", "li", "br", "em", "a"])]
    recs = texts(run, {"meaning", "err"}, "doc", plan, exh)
    cov = doc_cov(plan, recs, "random walks through DocGen (esc, mixed profiles) and all texts of EscapeGen up to the given length; non-trivial: more than 3 tokens")
    cov["exhaustive_texts"] = [dict(max_length=e[0], alphabet=len(e[1]), contexts=len(e[2])) for e in exh]
    return cov


@check("C02")
def c02(run):
    n = 10000 if run.thorough else 1500
    plan = [("esc", n, 8, 4), ("block", n // 2, 14, 5)]
    exh = [(2, SPECIALS, CTX)]
    if run.thorough:
        exh += [(3, SPECIALS, ["p", "li", "em"])]
    recs = texts(run, {"esc", "err"}, "doc2", plan, exh)
    cov = doc_cov(plan, recs, "every document is converted with and without escaping; non-trivial: more than 3 tokens")
    cov["exhaustive_texts"] = [dict(max_length=e[0], alphabet=len(e[1]), contexts=len(e[2])) for e in exh]
    return cov


@check("C10")
def c10(run):
    n = 8000 if run.thorough else 900
    plan = [("block", n, 14, 5), ("inline", n, 12, 5), ("mixed", n, 16, 5), ("code", n // 2, 10, 5), ("opts", n // 2, 14, 5)]
    _, recs, _ = run_docs(run, plan, {"form", "err"})
    cov = doc_cov(plan, recs, "random walks through DocGen (five profiles) and SoupGen; non-trivial: more than 3 tokens")
    soup = [(p, n // 2, t) for p in ("any", "inline", "list", "table", "code") for t in (7, 16)]
    cov["soup_plan"] = [list(p) for p in soup]
    cov["soup_documents"] = len(run_soup(run, soup, {"form", "err"}))
    return cov


# ---------------------------------------------------------------------------
# tables: TableGen -> harness table -> TableTrace

@check("C09")
def c09(run):
    n = 9000 if run.thorough else 2500
    gcfg = 'SPECIFICATION Spec\nINVARIANT GridOK\nCHECK_DEADLOCK FALSE\nCONSTANTS Mode = "%s"\n MaxRows = %d\n MaxCells = %d\n'
    cases = []
    grids = [(2, 2), (3, 2)] if run.thorough else [(2, 2)]
    for r, c in grids:
        cases += run.enumerate("TableGen", gcfg % ("grid", r, c), workers=8)
    rnd = [(1, 4), (2, 3), (3, 4), (4, 5), (2, 11)]
    for k, (r, c) in enumerate(rnd):
        cases += run.generate("TableGen", gcfg.replace("INVARIANT GridOK\n", "") % ("random", r, c), n // len(rnd), depth=400, salt=k)
    for i, c in enumerate(cases):
        c["id"] = i + 1
    recs = run.drive("table", cases)
    ver = run.judge("TableTrace", TRACECFG, recs)
    for r in recs:
        if ver[r["id"]]:
            run.violation(dict(t=r["t"]), "%s: opt %s html %r -> %r %s %s" % (",".join(ver[r["id"]]), r["t"]["opt"], r["html"], out_to_str(r["out"]), r["err"],
                                                                            run.details.get(r["id"], "")[:900]), r)
    smp = sorted(recs, key=lambda r: len(r["html"]))
    tables = sum(1 for r in recs if any("|-" in "".join(l) or "|:" in "".join(l) for l in r["out"]))
    return dict(samples=[dict(html=r["html"], markdown=out_to_str(r["out"])) for r in (smp[len(smp) // 2], smp[-1])],
                grids_exhaustive=[dict(rows=r, cells=c) for r, c in grids], random=[dict(rows=r, cells=c) for r, c in rnd],
                converted=tables, fallbacks=len(recs) - tables)


# ---------------------------------------------------------------------------
# white space: WsGen -> harness collapse -> WsTrace

def toks_str(toks):
    st, s = [], ""
    for t in toks:
        if t["k"] == "o":
            st.append(t["e"])
            s += "<%s>" % t["e"]
        elif t["k"] == "c":
            s += "</%s>" % st.pop()
        elif t["k"] == "v":
            s += "<%s/>" % t["e"]
        elif t["k"] == "t":
            s += repr(chars_to_str(t["s"]))
        else:
            s += "<!%s>" % t["k"]
    return s


@check("C08")
def c08(run):
    cfg = 'SPECIFICATION Spec\nINVARIANT Laws\nCHECK_DEADLOCK FALSE\nCONSTANTS Mode = "%s"\n MaxTok = %d\n'
    full = 6 if run.thorough else 5
    cases = run.enumerate("WsGen", cfg % ("all", full), workers=8)
    cases += run.enumerate("WsGen", cfg % ("chars", 5 if run.thorough else 4), workers=8)
    sizes = [6, 9, 14, 24]
    n = 6000 if run.thorough else 700
    for k, m in enumerate(sizes):
        cases += run.generate("WsGen", (cfg % ("random", m)).replace("INVARIANT Laws\n", ""), n, depth=6 * m, salt=k)
    for i, c in enumerate(cases):
        c["id"] = i + 1
    recs = run.drive("collapse", cases)
    ver = run.judge("WsTrace", TRACECFG, recs)
    for r in recs:
        if ver[r["id"]]:
            run.violation(dict(toks=r["toks"], kinds=r["kinds"]), "%s: %s (%s) -> %s %s %s" % (
                ",".join(ver[r["id"]]), toks_str(r["toks"]), r["kinds"], [toks_str(o) for o in r["outs"]], r["err"], run.details.get(r["id"], "")[:600]), r)
    smp = sorted(recs, key=lambda r: len(r["toks"]))
    return dict(samples=[dict(tree=toks_str(r["toks"]), after=toks_str(r["outs"][0])) for r in (smp[len(smp) // 2], smp[-1]) if r["outs"]],
                exhaustive_trees="all trees of up to %d tokens over 5 texts, 3 elements and 2 void elements" % full,
                exhaustive_texts="all texts of up to %d characters over letter, space, tab, newline, carriage return; all pairs of up to 2 characters with an element border between" % (5 if run.thorough else 4), random_sizes=sizes,
                distinct_nontrivial=len({repr(r["toks"]) for r in recs if len(r["toks"]) > 3}))


# ---------------------------------------------------------------------------
# histories: RegistryGen -> harness registry -> RegistryTrace

def histories(run, plan, aspects):
    """plan: [(profile, number, operations, document size)]"""
    cases = []
    for k, (prof, num, mo, md) in enumerate(plan):
        cfg = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Profile = "%s"\n MaxOps = %d\n MaxDoc = %d\n' % (prof, mo, md)
        for c in run.generate("RegistryGen", cfg, num, depth=mo * (md + 6) + 100, salt=k):
            c["prof"] = prof
            cases.append(c)
    for i, c in enumerate(cases):
        c["id"] = i + 1
    recs = run.drive("registry", cases)
    ver = run.judge("RegistryTrace", TRACECFG, recs)
    byid = {c["id"]: c for c in cases}
    for r in recs:
        c = byid[r["id"]]
        v = [a for a in ver[r["id"]] if a in aspects]
        if v:
            run.violation(dict(ops=c["ops"]), "%s: %s %s" % (",".join(v), run.details.get(r["id"], "")[:900], brief(c["ops"])), r)
    calls = sum(len(o["ev"]) for r in recs for o in r["ops"] if o["op"] == "conv")
    convs = sum(1 for r in recs for o in r["ops"] if o["op"] == "conv")
    fails = sum(1 for r in recs for o in r["ops"] if o["op"] == "conv" and o["err"])
    return dict(samples=[dict(history=brief(byid[recs[k]["id"]]["ops"]), outputs=[chars_to_str(o["out"]) or o["err"] for o in recs[k]["ops"] if o["op"] == "conv"]) for k in (0, len(recs) // 2)],
                plan=[list(p) for p in plan], conversions=convs, handler_calls=calls, failing_conversions=fails,
                distinct_nontrivial=len({repr(c["ops"]) for c in cases if len(c["ops"]) > 3}))


def brief(ops):
    out = []
    for o in ops:
        s = o["op"]
        for f in ("c", "id", "pri", "tag", "ty", "act", "ch", "ret", "chs", "name", "fail", "v", "dom", "usr"):
            if f in o and o[f] not in ("", False):
                s += " %s=%s" % (f, o[f])
        if "doc" in o:
            s += " " + toks_str(o["doc"])
        for f in ("opts", "sub"):
            if o.get(f):
                s += " %s=[%s]" % (f, brief(o[f]))
        out.append(s)
    return "; ".join(out)


@check("C11")
def c11(run):
    n = 6000 if run.thorough else 900
    return histories(run, [("order", n, 8, 6), ("order", n, 14, 9), ("many", n // 2, 30, 6)], {"order", "content", "out", "error"})


@check("C12")
def c12(run):
    n = 8000 if run.thorough else 1300
    return histories(run, [("types", n, 6, 8), ("types", n, 14, 14)], {"type", "out", "order", "error"})


@check("C14")
def c14(run):
    n = 6000 if run.thorough else 900
    cov = histories(run, [("state", n, 12, 7), ("state", n, 20, 9)], {"state", "content", "out", "error", "order"})
    fun = functions(run, n // 2, [(14, 3), (20, 6)])
    cov["document_histories"] = len(fun)
    cov["document_conversions"] = sum(len(r["ops"]) for r in fun)
    return cov


def options(run):
    cfg = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Mode = "%s"\n MaxLen = %d\n'
    cases = run.enumerate("OptGen", cfg % ("pairs", 0)) + run.enumerate("OptGen", cfg % ("twice", 0)) + run.enumerate("OptGen", cfg % ("hr", 6 if run.thorough else 5))
    for i, c in enumerate(cases):
        c["id"] = i + 1
    recs = run.drive("options", cases)
    ver = run.judge("OptTrace", TRACECFG, recs)
    for r in recs:
        if ver[r["id"]]:
            run.violation(dict(o=r["o"], f=r["f"]), "%s: options %s %s -> %s %r" % (",".join(ver[r["id"]]), {k: chars_to_str(v) for k, v in r["f"].items() if v}, {k: chars_to_str(v) for k, v in r["o"].items() if v}, r["errs"], out_to_str(r["out"])), r)
    return len(recs)


@check("C15")
def c15(run):
    n = 6000 if run.thorough else 900
    k = options(run)
    cov = histories(run, [("errors", n, 6, 4), ("errors", n, 12, 5)], {"error"})
    cov["option_values"] = k
    return cov


# ---------------------------------------------------------------------------
# arbitrary HTML: SoupGen -> harness soup -> SoupTrace

def run_soup(run, plan, aspects):
    cfg = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Profile = "%s"\n MaxTok = %d\n'
    cases = []
    for k, (prof, num, tok) in enumerate(plan):
        cases += run.generate("SoupGen", cfg % (prof, tok), num, depth=4 * tok + 10, salt=k)
    cases += [dict(html=e["key"]["html"], opt=e["key"]["opt"], prof="finding") for e in load_known(run.prop) if "html" in e.get("key", {}) and "opt" in e["key"]]
    for i, c in enumerate(cases):
        c["id"] = i + 1
    recs = run.drive("soup", cases)
    ver = run.judge("SoupTrace", TRACECFG, recs)
    for r in recs:
        v = [a for a in ver[r["id"]] if a in aspects]
        if v:
            run.violation(dict(html=r["html"], opt=r["opt"]), "%s: %s html %r -> %r %s %s" % (",".join(v), r["opt"], r["html"], out_to_str(r["out"]), r["err"],
                                                                                       run.details.get(r["id"], "")[:400]), r)
    return recs


@check("C20")
def c20(run):
    n = 6000 if run.thorough else 1200
    plan = [(p, n, t) for p in ("any", "inline", "list", "table", "code") for t in (7, 16)] + [("any", n // 2, 40)]
    recs = run_soup(run, plan, {"words", "err", "read", "glued"})
    smp = sorted(recs, key=lambda r: len(r["html"]))
    return dict(samples=[dict(html=r["html"], markdown=out_to_str(r["out"])) for r in (smp[len(smp) // 4], smp[len(smp) // 2])], plan=[list(p) for p in plan],
                words=sum(len(l["w"]) for r in recs for l in r["leaves"]), distinct_nontrivial=len({r["html"] for r in recs if len(r["leaves"]) > 1}))


# ---------------------------------------------------------------------------
# conversions are a function: FuncGen -> harness function -> FuncTrace

def functions(run, num, plan, big=()):
    cases = []
    for k, (ops, frags, size, num) in enumerate([p + (0, num) for p in plan] + [(5, 3) + b for b in big]):
        cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxOps = %d\n MaxFrag = %d\n Big = %d\n" % (ops, frags, size)
        cases += run.generate("FuncGen", cfg, num, depth=6 * (ops + frags) + 50, salt=k)
    for i, c in enumerate(cases):
        c["id"] = i + 1
    recs = run.drive("function", cases)
    ver = run.judge("FuncTrace", TRACECFG, recs)
    for r in recs:
        if ver[r["id"]]:
            run.violation(dict(docs=r["docs"], ops=[{k: o[k] for k in ("e", "c", "d", "dom", "ctx", "k")} for o in r["ops"]]),
                          "%s: %s documents %r" % (",".join(ver[r["id"]]), run.details.get(r["id"], "")[:1000], r["docs"]), r)
    return recs


@check("C21")
def c21(run):
    import collections
    n = 8000 if run.thorough else 1500
    plan = [(12, 3), (14, 8), (8, 25)]
    big = [(70, 20), (1100, 4), (5000, 3), (30000, 2)] if run.thorough else [(70, 6), (1100, 2), (5000, 1)]
    recs = functions(run, n, plan, big)
    return dict(long_documents_kb=[list(b) for b in big], samples=[dict(documents=r["docs"], entries=[o["e"] for o in r["ops"]], first=r["ops"][0]["out"]) for r in (recs[0], recs[-1])],
                conversions=sum(len(r["ops"]) for r in recs), entries=dict(collections.Counter(o["e"] for r in recs for o in r["ops"])),
                plan=[dict(operations=a, fragments=b) for a, b in plan], distinct_nontrivial=len({repr(r["docs"]) for r in recs}))


# ---------------------------------------------------------------------------
# several threads: ConcGen -> harness conc (also with the race detector) -> ConcTrace

def conc(run, plan):
    """plan: [(mode, number, threads, operations, fragments)]"""
    allrecs = []
    for k, (mode, num, th, ops, frags) in enumerate(plan):
        cfg = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Mode = "%s"\n Threads = %d\n MaxOps = %d\n MaxFrag = %d\n' % (mode, th, ops, frags)
        cases = run.generate("ConcGen", cfg, num, depth=200 + 4 * frags + 2 * th * ops, salt=k)
        for i, c in enumerate(cases):
            c["id"] = i + 1
        race = mode == "race"
        recs = run.drive("conc", cases, race=race, workers=3, env=dict(GORACE="halt_on_error=1 exitcode=66"))
        for r in recs:
            r.pop("progs", 0)
        ver = run.judge("ConcTrace", TRACECFG, recs)
        byid = {c["id"]: c for c in cases}
        for r in recs:
            if ver[r["id"]]:
                c = byid[r["id"]]
                run.violation(dict(docs=c["docs"], progs=c["progs"], sched=c["sched"]), "%s: %s documents %r programs %s turns %s" % (
                    ",".join(ver[r["id"]]), run.details.get(r["id"], "")[:900], c["docs"], c["progs"], c["sched"]), dict(c, recorded=r))
        allrecs += recs
    return allrecs


@check("C13")
def c13(run):
    n = 4 if run.thorough else 1
    plan = [("sched", 250 * n, 2, 4, 6), ("sched", 250 * n, 3, 5, 5), ("free", 250 * n, 4, 6, 6), ("race", 300 * n, 4, 6, 8), ("race", 100 * n, 8, 8, 5)]
    # the rule that judges is checked on its own: it accepts all histories of the
    # lock protocol, and does not accept those of a defective one
    cm = "SPECIFICATION Spec\nINVARIANTS Exclusive Accepted InOrder\nCONSTANTS NThreads = %d\n MaxOps = %d\n Defect = \"%s\"\n"
    models = [(2, 2, "none", 0), (3, 1, "none", 0), (2, 2, "lost", 12), (2, 2, "unsorted", 12), (2, 2, "nested", 11)]
    models += [(2, 3, "none", 0), (2, 3, "inplace", 12)] if run.thorough else []
    for th, ops, defect, code in models:
        run.tlc("ConcModel", cm % (th, ops, defect), ok_codes=(code,))
    recs = conc(run, plan)
    return dict(model=[dict(threads=a, operations=b, defect=c, outcome={0: "all histories accepted", 11: "deadlock found", 12: "violation found"}[d]) for a, b, c, d in models],
                samples=[dict(documents=r["docs"], turns=r["sched"], registrations=len(r["effs"]), events=len(r["events"])) for r in (recs[0], recs[len(recs) // 2])],
                plan=[dict(mode=a, histories=b, threads=c, operations=d, fragments=e) for a, b, c, d, e in plan],
                conversions=sum(len(r["convs"]) for r in recs), registrations=sum(len(r["effs"]) for r in recs), events=sum(len(r["events"]) for r in recs),
                distinct_nontrivial=len({repr((r["docs"], r["sched"])) for r in recs}))


# ---------------------------------------------------------------------------
# destinations: UrlGen -> harness url -> UrlTrace

@check("C07")
def c07(run):
    cfg = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Mode = "%s"\n MaxLen = %d\n'
    cases = run.enumerate("UrlGen", cfg % ("parts", 3 if run.thorough else 2))
    cases += run.enumerate("UrlGen", cfg % ("text", 3 if run.thorough else 2))
    n = 4000 if run.thorough else 400
    for k, size in enumerate((4, 7, 12)):
        cases += run.generate("UrlGen", cfg % ("soup", size), n, depth=size + 10, salt=k)
    # one history in one converter: a domain must not outlive its conversion
    random.Random(run.seed).shuffle(cases)
    for i, c in enumerate(cases):
        c["id"] = i + 1
    recs = run.drive("url", cases)
    ver = run.judge("UrlTrace", TRACECFG, recs)
    byid = {c["id"]: c for c in cases}
    for r in recs:
        if ver[r["id"]]:
            c = byid[r["id"]]
            outs = [bytes(o).decode("utf-8", "replace") for o in r["outs"]]
            run.violation(dict(ref=c["ref"], dom=c["dom"]), "%s: reference %r domain %r -> %r %s" % (",".join(ver[r["id"]]), c["ref"], c["dom"], outs, r["err"]), dict(c, outputs=outs, before=byid.get(r["id"] - 1)))
    return dict(samples=[dict(reference=byid[r["id"]]["ref"], domain=byid[r["id"]]["dom"], outputs=[bytes(o).decode("utf-8", "replace") for o in r["outs"]]) for r in (recs[len(recs) // 3], recs[-1])],
                references=len(cases), distinct_nontrivial=len({(c["ref"], c["dom"]) for c in cases}))


# ---------------------------------------------------------------------------
# the command line tool and the file system: FsGen -> harness fs -> FsTrace

@check("C17")
def c17(run):
    cfg = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxFiles = %d\n MaxRuns = %d\n'
    n = 10000 if run.thorough else 1200
    cases = []
    for k, (files, runs) in enumerate(((3, 2), (6, 3), (10, 4))):
        cases += run.generate("FsGen", cfg % (files, runs), n, depth=60, salt=k)
    for i, c in enumerate(cases):
        c["id"] = i + 1
    recs = run.drive("fs", cases, env=dict(CLI_BIN=run.cli()))
    ver = run.judge("FsTrace", TRACECFG, recs)
    byid = {c["id"]: c for c in cases}
    show = lambda fs: {"/".join(e["p"]) + ("" if e["k"] == "file" else ":" + e["k"]): e["c"][:20] for e in fs if e["p"] != ["w"]}
    for r in recs:
        if ver[r["id"]]:
            c = byid[r["id"]]
            k = int(re.search(r"run (\d+)", run.details[r["id"]]).group(1)) - 1
            s = r["steps"][k]
            run.violation(dict(fs=c["fs"], runs=c["runs"]), "%s: %s exit %d stdout %r stderr %r files before %s after %s" % (
                ",".join(ver[r["id"]]), s["run"], s["exit"], s["stdout"][:60], s["stderr"][:160], show(r["steps"][k - 1]["fs"] if k else r["fs"]), show(s["fs"])), dict(c, recorded=r))
    return dict(samples=[dict(files=show(r["fs"]), runs=[s["run"] for s in r["steps"]]) for r in (recs[0], recs[-1])],
                runs=sum(len(r["steps"]) for r in recs), successful=sum(s["exit"] == 0 for r in recs for s in r["steps"]), unprivileged=not recs[0]["priv"],
                distinct_nontrivial=len({repr((c["fs"], c["runs"])) for c in cases}))


# ---------------------------------------------------------------------------
# selectors: SelGen -> harness sel -> SelTrace

@check("C18")
def c18(run):
    cfg = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxNodes = %d\n MaxSel = %d\n'
    n = 6000 if run.thorough else 900
    cases = []
    for k, (nodes, sel) in enumerate(((9, 2), (16, 2), (28, 3))):
        cases += run.generate("SelGen", cfg % (nodes, sel), n, depth=6 * nodes + 30, salt=k)
    for i, c in enumerate(cases):
        c["id"] = i + 1
    recs = run.drive("sel", cases, env=dict(CLI_BIN=run.cli()))
    ver = run.judge("SelTrace", TRACECFG, recs)
    byid = {c["id"]: c for c in cases}
    for r in recs:
        if ver[r["id"]]:
            c = byid[r["id"]]
            run.violation(dict(html=c["html"], args=c["args"]), "%s: %s of %r gives %r, but the document %r gives %r" % (",".join(ver[r["id"]]), c["args"], c["html"], r["out"], c["rest"], r["ref"]), dict(c, recorded=r))
    return dict(samples=[dict(html=byid[r["id"]]["html"], args=byid[r["id"]]["args"], output=r["out"]) for r in (recs[0], recs[-1])],
                nontrivial=sum(bool(r["words"]) and len(r["words"]) < len(re.findall("w[0-9]+", byid[r["id"]]["html"])) for r in recs),
                distinct_nontrivial=len({(c["html"], tuple(c["args"])) for c in cases}))


# ---------------------------------------------------------------------------
# the arguments: FlagGen -> harness flags -> FlagTrace

@check("C19")
def c19(run):
    cfg = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxArgs = %d\n Mode = "%s"\n'
    n = 15000 if run.thorough else 1600
    cases = run.enumerate("FlagGen", cfg % (0, "pairs"))
    pairs = len(cases)
    for k, args in enumerate((1, 3, 6, 12)):
        cases += run.generate("FlagGen", cfg % (args, "walk"), n, depth=40, salt=k)
    for i, c in enumerate(cases):
        c["id"] = i + 1
    recs = run.drive("flags", cases, env=dict(CLI_BIN=run.cli()))
    ver = run.judge("FlagTrace", TRACECFG, recs)
    byid = {c["id"]: c for c in cases}
    for r in recs:
        if ver[r["id"]]:
            c = byid[r["id"]]
            run.violation(dict(html=c["html"], args=c["args"], stdin=c["stdin"], full=c["full"]),
                          "%s: %r (stdin %s%s) of %r: exit %d stdout %r stderr %r files %s; the model says %s, the library %r of %r" % (
                              ",".join(ver[r["id"]]), c["args"], c["stdin"], ", full device" if c["full"] else "", c["html"], r["exit"], r["stdout"][:300], r["stderr"][:200], r["files"], c["k"], r["lib"], c["rest"]), dict(c, recorded=r))
    kinds = collections.Counter(c["k"] for c in cases)
    return dict(samples=[dict(args=byid[r["id"]]["args"], stdin=r["stdin"], exit=r["exit"], stdout=r["stdout"][:200]) for r in (recs[0], recs[-1])], outcomes=dict(kinds), pairs_of_flags=pairs,
                nontrivial=sum(c["k"] == "ok" and bool(c["args"]) for c in cases), distinct_nontrivial=len({(tuple(c["args"]), c["stdin"], c["full"]) for c in cases}),
                distinct_outputs=len({r["stdout"] for r in recs}))


# ---------------------------------------------------------------------------
# any input at all: RobustGen -> harness robust -> RobustTrace

@check("C22")
def c22(run):
    cfg = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Mode = "%s"\n MaxLen = %d\n'
    full = 3 if run.thorough else 2
    cases = run.enumerate("RobustGen", cfg % ("edge", full))
    n = 20000 if run.thorough else 3500
    plan = [("soup", n, 6), ("soup", n, 15), ("soup", n // 2, 60), ("pump", 900 if run.thorough else 200, 1), ("pump", 900 if run.thorough else 200, 3), ("deep", 20000 if run.thorough else 2500, 1)]
    for k, (m, num, size) in enumerate(plan):
        cases += run.generate("RobustGen", cfg % (m, size), num, depth=size + 10, salt=k)
    for i, c in enumerate(cases):
        c["id"] = i + 1
    recs = run.drive("robust", cases)
    ver = run.judge("RobustTrace", TRACECFG, recs)
    for r in recs:
        if ver[r["id"]]:
            run.violation(dict(html=r["html"], pre=r["pre"], post=r["post"], rep=r["rep"], opt=r["opt"]),
                          "%s: %d ms, %r (%r %r) repeated %d times with %s: %s" % (",".join(ver[r["id"]]), r["ms"], r["html"], r["pre"], r["post"], r["rep"], r["opt"], r["err"][:500]), r)
    slow = max(recs, key=lambda r: r["ms"])
    return dict(samples=[dict(html=r["html"], repeated=r["rep"], ms=r["ms"]) for r in (recs[len(recs) // 2], slow)],
                edge_strings_up_to=full, plan=[list(p) for p in plan], parser_errors=sum(1 for r in recs if r["perr"]),
                distinct_nontrivial=len({(r["html"], r["rep"], r["pre"]) for r in recs}), largest_input=max(r["len"] for r in recs))

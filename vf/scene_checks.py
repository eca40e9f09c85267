"""Checks of the scene-text properties C01..C10.

For each property: (1) TLC explores the specification exhaustively within the bounds of some
models, checks its declarative properties there and prints every text with its outcome; the
implementation is replayed on all of them, in both float widths.  (2) Seeded random texts are
parsed by the implementation and the recorded calls are validated by TLC against the
specification."""
import json, os
from common import *
import scenes

BASE = "EmitCases InvTypeOK InvPositions InvScene RejectFinal"
SPECIAL = {
    "MC_Trunc": ("TInit", "TNext", BASE + " Cut Whole"),
    "MC_Layout": ("LInit", "LNext", BASE.replace("EmitCases", "EmitPairs") + " SameMeaning"),
    "MC_Comments": ("Init", "Next", BASE.replace("EmitCases", "EmitPairs") + " SameMeaning"),
    "MC_Remarks": ("Init", "Next", BASE.replace("EmitCases", "EmitPairs") + " SameMeaning"),
    "MC_Pump": ("PInit3", "PNext3", "EmitRecipe InvTypeOK InvScene Regular Stable"),
    "MC_Classes": ("KInit", "KNext", "EmitClass InvTypeOK InvPositions InvScene SameMeaning"),
    "MC_Many": ("MInit", "MNext", "EmitCases InvTypeOK ManyScene RejectFinal Counted"),
    "MC_Far": ("FInit", "FNext", "EmitFar InvTypeOK InvScene SameMeaning RunSound"),
    "MC_LongLists": ("Init", "Next", "EmitCases InvTypeOK InvScene"),
}
# property -> models; "-" marks one that stays at its quick bound in the thorough tier
MODELS = {
    "C01": ["MC_AnyChars", "MC_Punct", "MC_NumChars-", "MC_Numerals", "MC_BadParams-", "MC_Trunc", "MC_Far", "MC_Many"],
    "C02": ["MC_NumChars", "MC_Numerals", "MC_Decimals", "MC_NumCtx", "MC_NumPairs"],
    "C03": ["MC_StrChars", "MC_StrCtx", "MC_Pairs", "MC_Trunc", "MC_Far"],
    "C04": ["MC_Layout", "MC_Comments", "MC_Remarks", "MC_Far"],
    "C05": ["MC_PosGap", "MC_Far", "MC_Many-", "MC_Layout", "MC_StrChars-", "MC_NumChars-", "MC_BadParams-", "MC_BadWorld-", "MC_PreArgs-", "MC_Counts-", "MC_Trunc", "MC_Directives-", "MC_Pre-", "MC_Params-"],
    "C06": ["MC_Params", "MC_Names", "MC_Pairs-", "MC_NumPairs-", "MC_Many", "MC_Far-", "MC_LongLists", "MC_Counts-", "MC_StrCtx-"],
    "C07": ["MC_WrongType", "MC_Units", "MC_Many-", "MC_BadParams", "MC_Counts", "MC_LongLists-"],
    "C08": ["MC_Blocks", "MC_Pairs-", "MC_Many", "MC_Far-", "MC_Directives", "MC_Params-"],
    "C09": ["MC_Near", "MC_Keywords", "MC_Punct", "MC_Many", "MC_BadWorld", "MC_Blocks-", "MC_Trunc", "MC_Directives-"],
    "C10": ["MC_Near", "MC_Keywords", "MC_Many-", "MC_Pre", "MC_PreArgs", "MC_PreCounts", "MC_NumPairs-"],
}
ASPECTS = {
    "C01": ["panic"],
    "C02": ["panic", "nums", "pnum"],
    "C03": ["panic", "strs", "pstr"],
    "C05": ["panic", "pos", "errpos"],
    "C06": ["panic", "rejected", "params", "pnum", "pstr", "pbool"],
    "C07": ["panic", "accepted"],
    "C08": ["panic", "rejected", "tree", "strs"],
    "C09": ["panic", "accepted"],
    "C10": ["panic", "rejected", "accepted", "tree", "strs", "nums"],
}


# properties that say what becomes of arbitrary characters
SWEPT = ("C01", "C03", "C04", "C05", "C06", "C09")


def gen_cfg(model, length):
    init, nxt, inv = SPECIAL.get(model, ("Init", "Next", BASE))
    return ("INIT %s\nNEXT %s\nCONSTANTS\n Heads <- cHeads\n PiecesAt <- cPiecesAt\n TailsOf <- cTailsOf\n MaxLen <- %s\n"
            "INVARIANTS %s\nCHECK_DEADLOCK FALSE\n" % (init, nxt, length, inv))


def judge(run, mism, findings):
    """First mismatch that is not a listed finding."""
    for line in open(mism):
        m = json.loads(line)
        if case_key(m) in findings:
            print("KNOWN-FINDING: property=%s %s" % (run.prop, findings[case_key(m)]))
            continue
        raise Violation("; ".join("%s: %s" % tuple(d) for d in m["differences"]), m)


def replay_model(run, model, drivers, findings):
    deep = run.tier == "thorough" and not model.endswith("-")
    model = model.rstrip("-")
    out, ok = tlc(run, model, gen_cfg(model, "DeepLen" if deep else "QuickLen"))
    if not ok:
        spec_failed(model, out)
    for name, exe in drivers:
        mism, prog = run.path("mism"), run.path("progress")
        rc, so, se = drive([exe, "replay", run.prop, out, mism, prog])
        if rc != 0:
            why = died(rc, se)
            if why is None:
                raise ToolError("driver failed (%d): %s" % (rc, se[-2000:]))
            case = nth_case(out, progress(prog)) or {}
            raise Violation("the parser %s" % why, {"text": case.get("i"), "expected": case.get("o"), "build": name, "model": model})
        st = json.loads(so)
        judge(run, mism, findings)
        run.cov["cases_replayed"] += st["cases"]
        run.cov["traces_validated_against_impl"] += st["cases"]
        m = run.cov["models"][model]
        m["texts"], m["accepted"], m["rejected"], m["distinct_texts"] = st["cases"], st["accept"], st["reject"], st["distinct"]
        for s in st["samples"][:1]:
            run.sample({"model": model, "replayed": s})
    os.remove(out)


def pump(run, drivers, findings):
    out, ok = tlc(run, "MC_Pump", gen_cfg("MC_Pump", "QuickLen"))
    if not ok:
        spec_failed("MC_Pump", out)
    times = "5,2000,100000" if run.tier == "quick" else "3,5,7,100,1000,2000,5000,20000,100000,1000000"
    for name, exe in drivers[:1] if run.tier == "quick" else drivers:
        mism, prog = run.path("mism"), run.path("progress")
        rc, so, se = drive([exe, "pump", out, mism, prog, times])
        if rc != 0:
            why = died(rc, se)
            if why is None:
                raise ToolError("driver failed (%d): %s" % (rc, se[-2000:]))
            case = json.load(open(prog + ".cases"))[progress(prog)]
            raise Violation("the parser %s" % why, {"recipe": case, "build": name})
        st = json.loads(so)
        judge(run, mism, findings)
        run.cov["cases_replayed"] += st["cases"]
        run.cov["traces_validated_against_impl"] += st["cases"]
        run.cov["models"]["MC_Pump"].update({"pumped_texts": st["cases"], "longest_text_bytes": st["longest"]})


def sweep(run, drivers, findings):
    """Every text of MC_Classes with the characters of its class (quick: all below U+3100, every
    61st above; thorough: every 7th)."""
    out, ok = tlc(run, "MC_Classes", gen_cfg("MC_Classes", "QuickLen"))
    if not ok:
        spec_failed("MC_Classes", out)
    step = "61" if run.tier == "quick" else "7"
    for name, exe in drivers[:1]:
        mism, prog = run.path("mism"), run.path("progress")
        rc, so, se = drive([exe, "sweep", run.prop, out, mism, prog, step])
        if rc != 0:
            why = died(rc, se)
            if why is None:
                raise ToolError("driver failed (%d): %s" % (rc, se[-2000:]))
            raise Violation("the parser %s" % why, {"case": nth_case(out, progress(prog)), "build": name})
        st = json.loads(so)
        judge(run, mism, findings)
        run.cov["cases_replayed"] += st["cases"]
        run.cov["traces_validated_against_impl"] += st["cases"]
        run.cov["models"]["MC_Classes"].update({"texts": st["cases"], "characters": st["characters"]})


def validate_traces(run, drivers, findings, n, limit, batch=1500):
    """Random texts, recorded, validated by TLC."""
    cfg = "INIT Init\nNEXT Next\nINVARIANTS Conforms TypeOK\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n"
    asp = run.path("aspects.ndjson")
    with open(asp, "w") as f:
        f.write(json.dumps(ASPECTS[run.prop]) + "\n")
    texts = scenes.scenes("%s/%s" % (run.prop, run.seed), n, limit)
    k = 0
    while k < len(texts):
        part = texts[k:k + batch]
        name, exe = drivers[(k // batch) % len(drivers)]
        inp, tr, prog = run.path("in.ndjson"), run.path("trace.ndjson"), run.path("progress")
        with open(inp, "w") as f:
            f.write("".join(json.dumps(t) + "\n" for t in part))
        rc, so, se = drive([exe, "record", inp, tr, prog])
        if rc != 0:
            why = died(rc, se)
            if why is None:
                raise ToolError("driver failed (%d): %s" % (rc, se[-2000:]))
            raise Violation("the parser %s" % why, {"text": part[max(0, progress(prog))], "build": name})
        out, ok = tlc(run, "TraceScene", cfg, env={"TRACE": tr, "ASPECTS": asp})
        if not ok:
            bad = None
            for line in open(out, errors="replace"):
                if line.startswith('"MISMATCH '):
                    bad = json.loads(json.loads(line)[9:])
                    break
            if bad is None:
                raise ToolError("trace validation failed:\n" + tlc_errors(out))
            obs = json.loads(open(tr).read().split("\n")[bad["trace"] - 1])
            rec = {"text": part[bad["trace"] - 1], "expected": bad, "observed": obs["o"], "build": name}
            if case_key(rec) not in findings:
                raise Violation("a recorded parse is not a behaviour of the specification: expected %s, observed %s at %s"
                                % ("a scene" if bad["ok"] else "an error", obs["o"]["kind"], obs["o"]["pos"] or obs["o"]["msg"]), rec)
            print("KNOWN-FINDING: property=%s %s" % (run.prop, findings[case_key(rec)]))
            texts.remove(part[bad["trace"] - 1])
            continue
        st = json.loads(so)
        run.cov["traces_validated_against_impl"] += st["recorded"]
        run.cov["recorded_traces"] = run.cov.get("recorded_traces", 0) + st["recorded"]
        run.cov["recorded_traces_accepted"] = run.cov.get("recorded_traces_accepted", 0) + st["ok"]
        run.sample({"recorded": part[0]}, 12)
        k += batch


def validate_pairs(run, drivers, findings, n, limit, batch):
    """C04: the same random tokens in two layouts, recorded; TLC decides with the specification's
    lexer whether the tokens are indeed the same, and then demands the same outcome."""
    cfg = "INIT Init\nNEXT Next\nINVARIANTS Conforms\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n"
    pairs = scenes.pairs("%s/%s" % (run.prop, run.seed), n, limit)
    k = 0
    while k < len(pairs):
        part = pairs[k:k + batch]
        name, exe = drivers[(k // batch) % len(drivers)]
        inp, tr, prog = run.path("in.ndjson"), run.path("trace.ndjson"), run.path("progress")
        with open(inp, "w") as f:
            f.write("".join(json.dumps(t) + "\n" for ab in part for t in ab))
        rc, so, se = drive([exe, "record", inp, tr, prog])
        if rc != 0:
            why = died(rc, se)
            if why is None:
                raise ToolError("driver failed (%d): %s" % (rc, se[-2000:]))
            i = max(0, progress(prog))
            raise Violation("the parser %s" % why, {"text": part[i // 2][i % 2], "build": name})
        calls = [json.loads(l) for l in open(tr)]
        with open(tr, "w") as f:
            for i in range(0, len(calls), 2):
                f.write(json.dumps({"a": calls[i]["c"], "b": calls[i + 1]["c"], "oa": calls[i]["o"], "ob": calls[i + 1]["o"]}) + "\n")
        out, ok = tlc(run, "TraceLayout", cfg, env={"TRACE": tr})
        if not ok:
            bad = None
            for line in open(out, errors="replace"):
                if line.startswith('"MISMATCH '):
                    bad = json.loads(json.loads(line)[9:])
                    break
            if bad is None:
                raise ToolError("trace validation failed:\n" + tlc_errors(out))
            i = bad["trace"] - 1
            rec = {"text": part[i], "observed": [calls[2 * i]["o"], calls[2 * i + 1]["o"]], "build": name}
            if case_key(rec) not in findings:
                raise Violation("two layouts of the same tokens have different outcomes", rec)
            print("KNOWN-FINDING: property=%s %s" % (run.prop, findings[case_key(rec)]))
            pairs.remove(part[i])
            continue
        same = sum(1 for line in open(out, errors="replace") if line.startswith('"SAME'))
        run.cov["traces_validated_against_impl"] += 2 * len(part)
        run.cov["recorded_pairs"] = run.cov.get("recorded_pairs", 0) + len(part)
        run.cov["recorded_pairs_same_tokens"] = run.cov.get("recorded_pairs_same_tokens", 0) + same
        run.sample({"pair": part[0]}, 12)
        k += batch


def check(run):
    findings = known_findings(run.prop)
    drivers = [("f32", build("scene")), ("f64", build("scene", True))]
    for m in MODELS[run.prop]:
        replay_model(run, m, drivers, findings)
    if run.prop == "C01":
        pump(run, drivers, findings)
    if run.prop in SWEPT:
        sweep(run, drivers, findings)
    quick = run.tier == "quick"
    n, limit, batch = (6000, 700, 3000) if quick else (60000, 2500, 4000)
    if run.prop == "C04":
        validate_pairs(run, drivers, findings, n // 2, limit, batch // 2)
    else:
        validate_traces(run, drivers, findings, n, limit, batch)
    run.assumptions += [
        "specification Lexer/SceneParser/Scene.tla states what scene texts mean",
        "the derived Debug rendering of the parse result shows its contents faithfully",
        "in the models other than MC_Classes, non-ASCII characters are represented by members of their Unicode class"]

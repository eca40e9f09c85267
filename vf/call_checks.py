"""C20: what a parse returns depends on the text alone.

(1) TLC explores every history of calls by two threads within bounds (module Calls), files
named in the scenes coming and going; each history is replayed in fresh threads and every
answer compared with the one the text gets alone in a process of its own.  (2) Histories of
many threads parsing random texts and near-copies of them are recorded and validated by TLC."""
import json, os, random
from common import *
import scenes
from scene_checks import judge

HIST = "INIT Init\nNEXT Next\nCONSTANT Depth <- %sDepth\nINVARIANTS Pure Faithful EmitHist\nCHECK_DEADLOCK FALSE\n"
TRACE = "INIT Init\nNEXT Next\nINVARIANTS Conforms\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n"


def fail(rc, se, rec):
    why = died(rc, se)
    if why is None:
        raise ToolError("driver failed (%d): %s" % (rc, se[-2000:]))
    raise Violation("the parser %s" % why, rec)


def histories(run, drivers, findings):
    quick = run.tier == "quick"
    out, ok = tlc(run, "MC_Calls", HIST % ("Quick" if quick else "Deep"))
    if not ok:
        spec_failed("MC_Calls", out)
    for name, exe in drivers[:1] if quick else drivers:
        mism, prog, d = run.path("mism"), run.path("progress"), run.path("files")
        os.makedirs(d, exist_ok=True)
        rc, so, se = drive([exe, "calls", out, mism, prog, d])
        if rc != 0:
            fail(rc, se, {"case": nth_case(out, progress(prog)), "build": name})
        judge(run, mism, findings)
        st = json.loads(so)
        run.cov["cases_replayed"] += st["cases"]
        run.cov["traces_validated_against_impl"] += st["cases"]
        run.cov["models"]["MC_Calls"].update({"histories": st["cases"], "calls": st["calls"]})
    os.remove(out)


def siblings(r, s):
    """Texts that share length, beginning, end or words with s."""
    out = []
    for _ in range(3):
        if not s:
            break
        i = r.randrange(len(s))
        c = s[i]
        out.append(s[:i] + ("7" if c.isdigit() else "q" if c.isalpha() else " ") + s[i + 1:])
    out += [s + " ", s + s, s[:len(s) // 2], s[len(s) // 2:], " ".join(s.split(" ")[::-1])]
    # unfinished in every way: cut anywhere, or something begun after the end
    out += [s[:r.randrange(len(s) + 1)] for _ in range(3)]
    out += [s + c for c in r.sample(['"', '"a', '"\\', '#', '[', ']', '-', '1e', '1.', '.', 'W', '\n', '\r', '$', ' "', ' WorldBegin'], 4)]
    out += [r.choice(["\n\n", "#c\n", "  ", "Identity ", "\r\n"]) + s, s.swapcase()]
    return out


def plans(seed, n, threads):
    r = random.Random(seed)
    g = scenes.G(seed)
    res = []
    for _ in range(n):
        texts = []
        for _ in range(2):
            s = g.scene(300) if g.chance(.8) else g.big(r.choice(scenes.BIG), 60)
            texts += [s] + siblings(r, s)
        texts += ['Include "f.pbrt" WorldBegin Include "f.pbrt" Shape "s" "spectrum c" "f.spd" WorldEnd']
        texts = [scenes.encode(x) for x in texts]
        plan = [[r.randint(1, len(texts)) for _ in range(90)] for _ in range(threads)]
        for i in range(0, 90, 11):
            plan[0].insert(i, 0)
        res.append({"texts": texts, "plan": plan})
    return res


def recorded(run, drivers, findings):
    quick = run.tier == "quick"
    inputs = plans("calls/%s" % run.seed, 24 if quick else 300, 6)
    for name, exe in drivers:
        inp, tr, prog, d = run.path("in.ndjson"), run.path("trace.ndjson"), run.path("progress"), run.path("files")
        os.makedirs(d, exist_ok=True)
        with open(inp, "w") as f:
            f.write("".join(json.dumps(t) + "\n" for t in inputs))
        rc, so, se = drive([exe, "threads", inp, tr, prog, d])
        if rc != 0:
            fail(rc, se, {"input": inputs[max(0, progress(prog))]["texts"], "build": name})
        out, ok = tlc(run, "TraceCalls", TRACE, env={"TRACE": tr})
        if not ok:
            bad = None
            for line in open(out, errors="replace"):
                if line.startswith('"MISMATCH '):
                    bad = json.loads(json.loads(line)[9:])
                    break
            if bad is None:
                raise ToolError("trace validation failed:\n" + tlc_errors(out))
            obs = json.loads(open(tr).read().split("\n")[bad["trace"] - 1])
            case = inputs[bad["trace"] - 1]
            rec = {"input": {"text": case["texts"][bad["x"] - 1], "texts": case["texts"], "events": obs["ev"][:bad["event"]]}, "build": name}
            raise Violation("among other calls a text got another answer than alone: %r" % case["texts"][bad["x"] - 1][:300], rec)
        st = json.loads(so)
        run.cov["traces_validated_against_impl"] += st["recorded"]
        run.cov["recorded_traces"] = run.cov.get("recorded_traces", 0) + st["recorded"]
        run.cov["recorded_calls"] = run.cov.get("recorded_calls", 0) + st["calls"]
        run.sample({"threads": len(inputs[0]["plan"]), "texts": inputs[0]["texts"][:3]})


def check(run):
    findings = known_findings(run.prop)
    drivers = [("f32", build("scene")), ("f64", build("scene", True))]
    histories(run, drivers, findings)
    recorded(run, drivers, findings)
    run.assumptions += ["the derived Debug rendering of the parse result and the Display of the error show the outcome completely",
                        "overlapping calls overlap as the scheduler lets them: their interleaving is sampled, not controlled"]

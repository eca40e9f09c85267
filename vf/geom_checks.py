"""Checks of the geometry properties C11..C19.

As for scenes: TLC explores the machine of each family within bounds, checks the laws on every
state and prints it with the results the specification demands; the implementation is replayed
on all of them (in several scales and both element types and float widths).  Seeded random
histories are recorded from the implementation and validated by TLC against the specification."""
import json, os
from common import *
import geometry

# module -> (constants, invariants, view)
CFG = {
    "MC_Vec": (["Comps <- %sComps"], "Laws Emit", None),
    "MC_Pt": (["Comps <- %sComps"], "Laws Emit", None),
    "MC_Box": (["G <- %sG"], "HullOK SetsOK ExpandOK Emit", "View"),
    "MC_BoxNew": (["G <- %sG"], "Ok Emit", None),
    "MC_Measure": (["Los <- %sLos", "Exts <- %sExts"], "Laws Emit", None),
    "MC_Grid": (["Lo <- %sLo", "Hi <- %sHi"], "InBox Ordered Complete Emit", None),
    "MC_Mat": (["Depth <- %sDepth", "Gens <- QuickGens"], "Laws Emit", "View"),
    "MC_Inv": (["Depth <- %sDepth", "Factors <- %sFactors", "Diags <- %sDiags"], "Laws ClearedOK Emit", "View"),
    "MC_Xform": (["Depth <- %sDepth"], "Carries Parity NearOK Emit", None),
    "MC_Ray": (["Depth <- %sDepth"], "Product Collapse Keep Emit", None),
    "MC_Apply": (["Depth <- %sDepth"], "Laws Emit", "View"),
    "MC_Help": (["Depth <- %sDepth"], "Laws Emit", None),
    "MC_Frame": (["MaxD <- %sD"], "Unit Emit", None),
}
# property -> (driver, models, families of random histories)
PLAN = {
    "C11": ("gmat", ["MC_Mat"], ["mat"]),
    "C12": ("gmat", ["MC_Inv"], ["inv"]),
    "C13": ("gxform", ["MC_Xform"], ["xform"]),
    "C14": ("gbox", ["MC_BoxNew", "MC_Box"], ["boxhist"]),
    "C15": ("gbox", ["MC_Measure"], ["measure"]),
    "C16": ("gbox", ["MC_Grid"], ["grid"]),
    "C17": ("gvec", ["MC_Vec", "MC_Pt"], ["vec", "pt"]),
    "C18": ("gray", ["MC_Ray"], ["ray"]),
    "C19": ("gframe", ["MC_Frame"], ["frame"]),
    "C21": ("gapply", ["MC_Apply"], ["apply"]),
    "C22": ("ghelp", ["MC_Help"], ["help"]),
}


def cfg(model, tier):
    consts, inv, view = CFG[model]
    pre = "Quick" if tier == "quick" else "Deep"
    lines = ["INIT Init", "NEXT Next", "CONSTANTS"] + [" " + (c % pre if "%s" in c else c) for c in consts] + ["INVARIANTS " + inv]
    if view:
        lines.append("VIEW " + view)
    return "\n".join(lines + ["CHECK_DEADLOCK FALSE", ""])


def fail_driver(rc, se, case, name):
    why = died(rc, se)
    if why is None:
        raise ToolError("driver failed (%d): %s" % (rc, se[-2000:]))
    raise Violation("the code %s" % why, {"input": case, "build": name})


def replay_model(run, model, out, drivers, findings):
    for name, exe in drivers:
        mism, prog = run.path("mism"), run.path("progress")
        rc, so, se = drive([exe, "replay", out, mism, prog])
        if rc != 0:
            fail_driver(rc, se, nth_case(out, progress(prog)), name)
        for line in open(mism):
            m = json.loads(line)
            if case_key(m) in findings:
                print("KNOWN-FINDING: property=%s %s" % (run.prop, findings[case_key(m)]))
                continue
            m["build"], m["model"] = name, model
            raise Violation("; ".join("%s: %s" % tuple(d) for d in m["differences"]), m)
        st = json.loads(so)
        run.cov["cases_replayed"] += st["cases"]
        run.cov["evaluations"] = run.cov.get("evaluations", 0) + st["evaluations"]
        run.cov["traces_validated_against_impl"] += st["cases"]
        run.cov["models"][model]["cases"] = st["cases"]
        for s in st["samples"][:1]:
            run.sample({"model": model, "replayed": s})


def validate(run, what, inputs, drivers, findings, batch):
    conf = "INIT Init\nNEXT Next\nINVARIANTS Conforms\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n"
    for name, exe in drivers:
        k = 0
        while k < len(inputs):
            part = inputs[k:k + batch]
            inp, tr, prog = run.path("in.ndjson"), run.path("trace.ndjson"), run.path("progress")
            with open(inp, "w") as f:
                f.write("".join(json.dumps(t) + "\n" for t in part))
            rc, so, se = drive([exe, "record", inp, tr, prog])
            if rc != 0:
                fail_driver(rc, se, part[max(0, progress(prog))], name)
            out, ok = tlc(run, "TraceGeom", conf, env={"TRACE": tr})
            if not ok:
                bad = None
                for line in open(out, errors="replace"):
                    if line.startswith('"MISMATCH '):
                        bad = json.loads(json.loads(line)[9:])
                        break
                if bad is None:
                    raise ToolError("trace validation failed:\n" + tlc_errors(out))
                obs = json.loads(open(tr).read().split("\n")[bad["trace"] - 1])
                rec = {"input": {"history": obs["ev"][:bad["event"]], "f": obs["f"], "kind": obs["kind"]}, "expected": bad, "build": name}
                raise Violation("a recorded history of %s is not a behaviour of the specification at event %d: %s"
                                % (what, bad["event"], json.dumps(obs["ev"][bad["event"] - 1])), rec)
            st = json.loads(so)
            run.cov["traces_validated_against_impl"] += st["recorded"]
            run.cov["recorded_traces"] = run.cov.get("recorded_traces", 0) + st["recorded"]
            run.sample({"recorded": part[0]}, 12)
            k += batch


# what a driver can do without, should the code under test no longer offer it in that form
WITHOUT = {"gframe": [["frame_plain"]], "ghelp": [["no_swap"], ["no_tomat"], ["no_swap", "no_tomat"]]}


def build_any(bin_, f64):
    try:
        return build(bin_, f64)
    except ToolError as e:
        for fs in WITHOUT.get(bin_, []):
            try:
                return build(bin_, f64, fs)
            except ToolError:
                pass
        raise e


def check(run):
    findings = known_findings(run.prop)
    bin_, models, fams = PLAN[run.prop]
    drivers = []
    for name, f64 in (("f32", False), ("f64", True)):
        exe = build_any(bin_, f64)
        drivers.append((name, exe))
    for m in models:
        out, ok = tlc(run, m, cfg(m, run.tier))
        if not ok:
            spec_failed(m, out)
        if m == "MC_Frame":
            cases = [json.loads(json.loads(l)[5:]) for l in open(out, errors="replace") if l.startswith('"CASE ')]
            validate(run, "frames", cases, drivers, findings, 20000)
        else:
            replay_model(run, m, out, drivers, findings)
        os.remove(out)
    n = 5000 if run.tier == "quick" else 60000
    for f in fams:
        validate(run, f, geometry.inputs(run.seed, f, n), drivers, findings, 5000 if run.tier == "quick" else 10000)
    run.assumptions += [
        "specification Geometry.tla states the mathematics the code is to agree with",
        "the integer cases, scaled, stand for arguments of every magnitude (results are homogeneous)",
        "floating-point results within a relative tolerance of 2e-5 (f32) or 1e-12 (f64) of the exact ones are right"]

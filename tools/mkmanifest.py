"""Write MANIFEST.json from properties.jsonl and the checks that exist."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
NA = {
    "C22": "Equality of compiled and interpreted modes is a statement about numba's translation to machine code; executing both symbolically means encoding numba-generated LLVM IR with its runtime (reference counting, typed lists, jitclass boxing, libm/BLAS calls), which is out of reach here. What remains - running both modes on concrete inputs - is testing, not solver-based checking.",
    "C23": "Convergence of the global error is a limit over infinitely many steps for all smooth right-hand sides: it has no bound, so it is a proof obligation and not a bounded solver query. Its local ingredients (order, formula, start-up, error control) are decided by C06-C10.",
}
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
checks, na = [], []
os.environ["NBKODE_NONUMBA"] = "1"
for p in props:
    i = p["id"]
    if i in NA:
        na.append(dict(property=i, reason=NA[i]))
    elif os.path.exists(f"{V}/checks/{i.lower()}.py"):
        m = importlib.import_module(f"checks.{i.lower()}")
        checks.append(dict(
            property=i,
            quick_cmd=f"./check {i} --tier quick",
            thorough_cmd=f"./check {i} --tier thorough",
            evidence_file=f"evidence/{i}.json",
            technique="symbolic execution of nbkode's own functions (all paths within bounds), branches and assertions decided by z3",
            level="other",
            level_note="Bounded, for all values: " + m.BOUNDS + ". Trusted: z3, the engine in sx/ (numpy stand-in and real-arithmetic reading of floats unless a harness says fp64), numba's translation. " + " ".join(getattr(m, "ASSUMPTIONS", [])),
        ))
    else:
        na.append(dict(property=i, reason="Check not built yet."))
man = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
    notes="No hooks in /repo: the package's own interpreted mode (NBKODE_NONUMBA=1) is what is executed symbolically. Defects found and repaired: known_findings.txt.")
json.dump(man, open(f"{V}/MANIFEST.json", "w"), indent=1)
import jsonschema
jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(checks), "claimed")

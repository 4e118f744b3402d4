"""writes MANIFEST.json from the checks present (a property without a check goes to not_applicable)"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
    "C01": ("API-boundary monitor of recommend, float64 ranking oracle", "Every observed answer is compared with a float64 ranking; assumes the factors the model exposes are the ones it answers with."),
    "C02": ("API-boundary monitor, set-membership oracle over filters", "Every observed answer of every CPU model is checked for forbidden ids and slot rules."),
    "C03": ("API-boundary monitor, float64 cosine ranking oracle", "Every observed answer compared with float64 cosines."),
    "C04": ("metamorphic runtime monitor: batch call against single calls", "Equality of observed answers, up to ties and rounding."),
    "C05": ("monitor of factor updates during fit (callbacks, hooks on solvers), normal-equation oracle", "Every observed row update is judged in float64."),
    "C06": ("trace monitor of reported losses, dense definition oracle", "Losses observed in callbacks and direct calls, all cells summed in float64."),
    "C07": ("history monitor with shadow model", "After each operation of a random history all queries are compared with a fresh model with the same factors."),
    "C08": ("state monitor around partial fits, bitwise frame condition and normal-equation oracle", "Exactly the named rows change."),
    "C09": ("API-boundary monitor of explain, dense float64 oracle", "Totals, contributions and order recomputed."),
    "C10": ("monitor of trained similarity matrices, dense product oracle", "Neighbour lists compared with an independent weighting and product."),
    "C11": ("API-boundary monitor of item-item queries, sparse product oracle", "Scores and order recomputed from the stored similarity."),
    "C12": ("concurrent stress with injected preemption and ThreadSanitizer, serial-answer oracle", "Concurrent histories compared with serial answers; race reports in native code."),
    "C13": ("AddressSanitizer, UBSan, libstdc++ assertions under hostile calls; native heap growth monitor", "Sanitizer reports and process death decide; BLAS and numpy internals are not instrumented."),
    "C14": ("adversarial OpenMP scheduling (own runtime shim), ThreadSanitizer, equality of repeated trainings", "Schedules are those of the shim's policies; race freedom as seen by TSan on the executions run."),
    "C15": ("trace monitor of BPR epochs against the set of outcomes reachable by valid steps", "Exact on tiny data with one thread; structural invariants with several threads."),
    "C16": ("trace monitor of LMF epochs against the set of outcomes reachable by valid steps", "Exact on tiny data; structural invariants on larger ones."),
    "C17": ("round-trip monitor of save/load/pickle, bitwise oracle", "Attributes, answers and further training compared."),
    "C18": ("monitor of metric calls, brute-force definitions over the recommendations observed", "Recommendations the metric code received are recorded and re-scored."),
    "C19": ("conservation monitor of splits", "Multisets of entries compared; counts per user; reachability of each rating over seeds."),
    "C20": ("byte-hash monitors of arguments and model state around calls; overwriting of results", "Every argument array and model attribute hashed before and after."),
    "C21": ("metamorphic monitor: same content, different storage and labels", "Equality of observed answers."),
    "C22": ("API-boundary monitor of the approximate wrappers, float64 oracle", "Scores and ids recomputed; exhaustive configurations compared with the exact ranking."),
    "C23": ("fault-injection monitor: invalid calls, exception and state oracle", "Exception type, unchanged state hash, unchanged later answers."),
    "C24": ("fault injection on a loopback server (every protocol stage, byte offsets, kill -9), cache-state oracle", "All protocol stages and a grid of byte offsets are enumerated; the following call must return the complete data."),
    "C25": ("trace-specification monitor of callbacks and exceptions, NaN injection", "Event traces of fit compared with the specification."),
    "C27": ("monitor of constructors, factories and index libraries; metamorphic comparison of trainings", "Attributes, trained factors and recorded library parameters compared with the documented meaning of every parameter."),
    "C28": ("metamorphic monitor: the same call in other forms", "Equality of observed answers."),
    "C29": ("history monitor of repeated trainings with shadow models", "Factors after every observed training compared with those of a fresh model or of one uninterrupted training."),
}
NA = {"C26": "GPU code cannot be executed here: no CUDA device, driver or compiler, so there is no execution to monitor."}


def main():
    props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl")) if x.strip()]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in NA:
            na.append({"property": i, "reason": NA[i]})
        elif os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
            t, n = NOTES[i]
            checks.append({"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "VERIF_TIER=thorough ./check " + i,
                           "evidence_file": "evidence/%s.json" % i, "technique": "runtime monitoring: " + t,
                           "level": "fault_enumeration" if i == "C24" else "exploration", "level_note": n})
        else:
            na.append({"property": i, "reason": "check not built yet"})
    m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -m vlib.build", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: the monitors observe the unmodified code at its API, through its solver attributes, "
                  "through a substitute OpenMP runtime and through compiler sanitizers."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()

"""Model checking of the specification itself, and the evidence files."""
import json, os, time
from vlib import *

# property -> (module, configuration) to check with TLC
MODELS = {
    "C01": [("MC_Router", "MC_Router")], "C02": [("MC_Router", "MC_Router")],
    "C03": [("MC_Router", "MC_Router")], "C05": [("MC_Router", "MC_Router")],
    "C04": [("MC_Words", "MC_Path")],
    "C06": [("MC_Reader", "MC_Reader"), ("MC_Server", "MC_Server")],
    "C07": [("MC_Reader", "MC_Reader")], "C08": [("MC_Reader", "MC_Reader")], "C09": [("MC_Reader", "MC_Reader")],
    "C10": [("MC_Words", "MC_Headers")], "C11": [("MC_Words", "MC_Query")], "C12": [("MC_Words", "MC_XQuery")],
    "C13": [("MC_Words", "MC_Cookies")],
    "C14": [("MC_Response", "MC_Response")], "C15": [("MC_Response", "MC_Response")],
    "C16": [("MC_Response", "MC_Response")], "C17": [("MC_Response", "MC_Response")],
    "C18": [("MC_Server", "MC_Server")], "C19": [("MC_Server", "MC_Server")], "C21": [("MC_Server", "MC_Server")],
    "C20": [("MC_Civil", "MC_Civil")],
    "C22": [("MC_Lifecycle", "MC_Lifecycle")], "C23": [("MC_Config", "MC_Config")],
    "C24": [("MC_Router", "MC_Features")],
}


def run(pid, thorough, work):
    out = []
    for module, cfg in MODELS.get(pid, []):
        c = cfg + ".cfg"
        if thorough and os.path.exists(os.path.join(SPEC, cfg + "_thorough.cfg")):
            c = cfg + "_thorough.cfg"
        t = time.time()
        o = tlc(module + ".tla", c, work, env=dict(DEPTH="4" if thorough else "3"), timeout=3000 if thorough else 400)
        if "No error has been found" not in o:
            raise ToolError("TLC on %s gave no verdict" % module)
        g, d = states(o)
        log("%s (%s): %d states, %d distinct, %.1fs" % (module, c, g, d, time.time() - t))
        out.append(dict(module=module, config=c, states_generated=g, distinct_states=d, seconds=round(time.time() - t, 1)))
    return out


def short(x, n=1500):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + "..."


def evidence(pid, a, rc, dims, executed, nstates, gstates, model, variants, spec_dev, samples, wall):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    ev = dict(property=pid, tier="thorough" if a.thorough else "quick", seed=a.seed, level="model_checking",
              coverage=dict(
                  states=sum(m["distinct_states"] for m in model) + nstates + gstates,
                  transitions=sum(m["states_generated"] for m in model) + nstates + gstates,
                  traces_validated_against_impl=executed,
                  model_runs=model,
                  trace_states=nstates,
                  generator_states=gstates,
                  scenarios_by_dimension=dict(dims),
                  builds=list(variants),
                  deviations_of_other_properties=dict(spec_dev) if rc == 0 else {},
                  samples=[short(s) for s in samples],
                  exhaustive=False),
              assumptions=["The scenarios replayed are those listed by dimension; beyond them the code is not exercised.",
                           "The recorder (harness) reports what the handlers and clients saw.",
                           "TLC and the CommunityModules are correct."],
              wall_s=round(wall, 1), violations=1 if rc else 0)
    tmp = os.path.join(d, ".%s.tmp" % pid)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, "%s.json" % pid))

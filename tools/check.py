#!/usr/bin/env python3
"""check.py <property id> [--thorough] [--seed N] [--dump]: decides one property on /repo's current tree."""
import argparse, collections, json, os, random, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
import corpus as C
import models as M

HANG = {"R_hang", "R_refused", "L_setup", "X_crash", "T_end", "L_conn"}
# tags that contradict the property by themselves
HARD = {
    "C01": {"C_nomatch", "C_repeat", "C_missing"},
    "C02": {"C_order", "C_afterstop", "C_missing"},
    "C03": set(),
    "C04": {"G_reg", "C_ran_escape", "R_class_escape", "R_none_escape", "R_hang_escape"},
    "C05": {"V_vars"},
    "C06": {"R_hang", "R_none", "R_refused", "R_head", "R_cl", "R_clcount", "X_crash"},
    "C07": set(),
    "C08": {"C_ran_head", "C_ran_host", "C_ran_method", "C_ran_cut", "R_class_head", "R_class_host", "R_class_method", "R_class_cut",
            "R_class_404", "R_rejected", "R_theirs", "R_none_head", "R_none_host", "R_none_method"},
    "C09": {"V_body", "C_ran_short", "R_class_short", "R_none_short", "C_early"},
    "C10": {"V_hdr", "V_raw"},
    "C11": {"V_q"},
    "C12": {"V_xq"},
    "C13": {"V_ck"},
    "C14": {"R_head", "R_status", "R_code", "R_reason", "R_break", "R_line", "R_clcount", "R_cl", "R_ckcount", "R_cookie", "R_extra", "R_count", "R_body"},
    "C15": {"R_code", "R_hdr", "R_ctype", "R_count", "R_cookie", "R_ckcount", "R_body", "O_obs", "R_extra"},
    "C16": {"R_break", "R_line"},
    "C17": {"R_body", "R_cl", "R_clcount", "R_ctype", "O_obs"},
    "C18": set(),
    "C19": set(),
    "C20": {"R_date"},
    "C21": set(),
    "C22": {"L_cb", "L_conn", "L_ret"},
    "C23": {"K_app", "K_cfg"},
    "C24": set(),
}
# properties for which, in their own corpus, any deviation from a clean reference counts
SOFT_ANY = {"C01", "C02", "C04", "C06", "C07", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C05", "C08"}


def soft_tags(pid, tags):
    return tags if pid in SOFT_ANY else set()


def refs_of(it):
    return it.ref if isinstance(it.ref, list) else [] if it.ref is None else [it.ref]


class Run:
    def __init__(self, pid, variant, work):
        self.pid, self.variant, self.work = pid, variant, work
        self.bin = build(variant)
        self.states = 0
        self.executed = 0

    def record(self, scs, tmo=None, shards=NPROC, maxtmo=None):
        t0 = time.time()
        traces = run_scenarios(self.bin, scs, self.work, tmo=tmo, shards=shards, maxtmo=maxtmo)
        bad, st = judge(scs, traces, self.work)
        self.states += st
        self.executed += sum(1 for t in traces if not t.get("skipped"))
        self.skipped, self.others = 0, collections.Counter(t for i in bad.values() for t in i)
        log("%s: %d scenarios, %d trace states, %.1fs" % (self.variant, len(scs), st, time.time() - t0))
        return traces, bad

    def evaluate(self, items, tmo=None, shards=NPROC, maxtmo=None):
        """Runs the items and everything they refer to; returns [(item, tags of this property, all tags)] for deviations."""
        scs, index = [], {}

        def put(sc):
            if id(sc) not in index:
                index[id(sc)] = len(scs)
                scs.append(sc)
        for it in items:
            for ref in refs_of(it):
                put(ref)
        for it in items:
            put(it.sc)
            for t, _ in it.twins:
                put(t)
        t0 = time.time()
        traces = run_scenarios(self.bin, scs, self.work, tmo=tmo, shards=shards, maxtmo=maxtmo)
        t1 = time.time()
        bad, st = judge(scs, traces, self.work)
        t2 = time.time()
        tw = []
        where = []
        for n, it in enumerate(items):
            for t, pairs in it.twins:
                tw.append((traces[index[id(it.sc)]], traces[index[id(t)]], pairs))
                where.append(n)
        tbad, st2 = judge_twins(tw, self.work) if tw else ({}, 0)
        self.states += st + st2
        self.executed += sum(1 for t in traces if not t.get("skipped"))
        log("%s: %d scenarios in %.1fs, %d trace states judged in %.1fs, %d twins in %.1fs" %
            (self.variant, len(scs), t1 - t0, st, t2 - t1, len(tw), time.time() - t2))
        out, skipped = [], 0
        twin_tags = collections.defaultdict(set)
        for i, tags in tbad.items():
            twin_tags[where[i]] |= tags
        for n, it in enumerate(items):
            tr = traces[index[id(it.sc)]]
            if tr.get("skipped"):
                skipped += 1
                continue
            tags = bad.get(index[id(it.sc)], set())
            mine = tags & HARD[self.pid]
            if it.ref is not None and not any(bad.get(index[id(ref)]) or traces[index[id(ref)]].get("skipped") for ref in refs_of(it)):
                mine |= soft_tags(self.pid, tags)
            mine |= twin_tags[n]
            if mine:
                out.append((it, mine, tags | twin_tags[n], tr))
        self.skipped = skipped
        self.others = collections.Counter(t for i in bad.values() for t in i)
        return out


def confirm(run, it, mine):
    """A wait that ran out is believed only if it runs out again with the machine to itself."""
    if mine - HANG:
        return mine
    for _ in range(3):
        again = run.evaluate([it], tmo=12000, shards=1, maxtmo=1000000)
        if again:
            return again[0][1]
    return set()


NOANSWER = {"R_hang", "R_none", "R_refused", "X_crash"}


def builds(c, full, work, names):
    """C24: what deviates in a build with fewer features and is right in the full build.
    Yields (build, items run, run, deviations)."""
    traces, bad = full.record([it.sc for it in c.items])
    for name in names:
        try:
            run = Run("C24", name, work)
        except ToolError:
            log("%s does not build: left out" % name)
            continue
        has = features_of(name)
        its = [(n, C.Item(C.suits(it.sc, has), dim=it.dim)) for n, it in enumerate(c.items) if C.suits(it.sc, has) is not None and n not in bad and not traces[n].get("skipped")]
        t2, b2 = run.record([it.sc for _, it in its])
        out = []
        for k, (n, it) in enumerate(its):
            tags = b2.get(k, set())
            # a build without "faithful" need not refuse what is ill formed, but it answers
            if "faithful" not in has and any(e["e"] == "done" and bytes(e.get("head", []))[9:12] == b"400" for e in traces[n]["events"]):
                tags = tags & NOANSWER
            for _ in range(3):
                # a wait that ran out is believed only if it runs out again with the machine to itself
                if tags and not tags - HANG:
                    tags = tags & run.record([it.sc], tmo=12000, shards=1, maxtmo=1000000)[1].get(0, set())
            if tags:
                out.append((it, tags, tags, t2[k]))
                break
        yield name, [it for _, it in its], run, out


def readable(sc):
    """a scenario with its byte strings as text"""
    def f(x):
        if isinstance(x, list) and x and all(isinstance(b, int) and 0 <= b < 256 for b in x):
            return bytes(x).decode("latin-1")
        if isinstance(x, list):
            return [f(y) for y in x]
        if isinstance(x, dict):
            return {k: f(v) for k, v in x.items() if v not in ([], None, False, "")}
        return x
    return f(sc)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--no-model", action="store_true")
    ap.add_argument("--all-tags", action="store_true")
    a = ap.parse_args()
    pid, t0 = a.pid, time.time()
    a.thorough = a.thorough or os.environ.get("VERIF_TIER") == "thorough"
    viol = None
    with Work() as work:
        model = [] if a.no_model else M.run(pid, a.thorough, work)
        dims, executed, nstates, gstates, spec_dev, samples = collections.Counter(), 0, 0, 0, collections.Counter(), []
        variants = C.VARIANTS.get(pid, ["full"])
        for variant in variants:
            run = Run(pid, variant, work)
            c = C.Corpus(pid, a.seed, a.thorough)
            C.fill(c, variant, work)
            items = c.items
            for it in items:
                dims[it.dim] += 1
            gstates += c.gstates
            samples += [dict(dim=it.dim, build=variant, scenario=readable(it.sc)) for it in random.Random(a.seed).sample(items, min(3, len(items)))]
            devs = run.evaluate(items) if pid != "C24" else []
            rounds = 0
            if pid == "C24":
                run.skipped = 0
                variants = ["full"]
                for name, its, other, out in builds(c, run, work, C.BUILDS if a.thorough else C.QUICK_BUILDS):
                    variants.append(name)
                    executed += other.executed
                    nstates += other.states
                    for it in its:
                        dims["%s %s" % (name, it.dim)] += 1
                    if out:
                        viol = out[0] + (name,)
                        break
                if len(variants) == 1:
                    raise ToolError("no other build than the full one")
            while True:
                for it, mine, tags, tr in devs:
                    real = confirm(run, it, mine)
                    if real:
                        viol = (it, real, tags, tr, variant)
                        break
                if viol or not run.skipped or rounds >= 2:
                    break
                rounds += 1
                c2 = [it for it in items]
                devs = run.evaluate(c2, tmo=8000)
            spec_dev.update(run.others)
            executed += run.executed
            nstates += run.states
            if a.all_tags:
                log("all tags seen:", dict(run.others))
            if viol:
                break
        rc = 0
        if viol:
            it, real, tags, tr, variant = viol
            d = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            rp = os.path.join(d, "%s.json" % pid)
            with open(rp, "w") as f:
                json.dump(dict(property=pid, variant=variant, tags=sorted(real), all_tags=sorted(tags), dim=it.dim, note=it.note,
                               scenario=it.sc, twins=[t for t, _ in it.twins], trace=tr), f)
            log("violated: %s dim=%s note=%s" % (sorted(real), it.dim, it.note))
            print("VIOLATION property=%s replay=%s" % (pid, rp), flush=True)
            rc = 1
        M.evidence(pid, a, rc, dims, executed, nstates, gstates, model, variants, spec_dev, samples, time.time() - t0)
    return rc


if __name__ == "__main__":
    try:
        sys.exit(main())
    except ToolError as e:
        log("no verdict: %s" % e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)

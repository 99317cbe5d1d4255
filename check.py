#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property by symbolic execution of the real code (see DESIGN.md):
builds the instrumented code from /repo's working tree, explores every path of
the property's harnesses within the stated bounds, replays what the solver
finds on the plain build, and writes evidence/<PROPERTY>.json.
"""
import concurrent.futures as cf
import glob
import json
import os
import resource
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.dont_write_bytecode = True
import build  # noqa: E402
import props  # noqa: E402

JOBS = os.cpu_count() or 4


def known_findings(pid):
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: "):
                f = line[7:].split(None, 2)
                if f[0] == "property=" + pid and f[1].startswith("id="):
                    out[f[1][3:]] = f[2]
    return out


def write_replay(path, params, model):
    with open(path, "w") as f:
        for k, v in sorted(params.items()):
            f.write("param %s %s\n" % (k, v))
        for n, v in model:
            f.write("%s %d\n" % (n, v))


def deep():
    """The plain build has large frames."""
    hard = resource.getrlimit(resource.RLIMIT_STACK)[1]
    want = 1 << 30
    if hard != resource.RLIM_INFINITY:
        want = min(want, hard)
    resource.setrlimit(resource.RLIMIT_STACK, (want, hard))


def native(exe, path, tmo=20):
    env = dict(build.ENV, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0",
               UBSAN_OPTIONS="print_stacktrace=0")
    try:
        r = subprocess.run([exe, path, str(tmo)], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, env=env, timeout=tmo + 20,
                           preexec_fn=deep)
        return r.returncode, r.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return -99, "timeout"


def explore(exe, params, tl, out, seed):
    for f in glob.glob(out + "*"):
        os.unlink(f)
    cmd = [exe, "-j", str(JOBS), "-t", str(tl), "-o", out, "-maxviol", "8",
           "-seed", str(seed)]
    cmd += ["%s=%s" % kv for kv in sorted(params.items())]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=tl + 120)
        txt = r.stdout.decode("utf-8", "replace")
        rc = r.returncode
    except subprocess.TimeoutExpired as e:
        txt, rc = "explorer did not stop: %s" % (e.stdout or b"")[-2000:], 9
    if rc != 0:
        return None, txt
    head = json.load(open(out))
    ws = [json.load(open("%s.%d" % (out, i))) for i in range(head["workers"])]
    for f in glob.glob(out + "*"):
        os.unlink(f)
    return (head, ws), txt


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get(
        "VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = props.PROPS[pid]
    t0 = time.time()
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(build.BUILD, "out"), exist_ok=True)
    repdir = os.path.join(HERE, "replays", pid)
    os.makedirs(repdir, exist_ok=True)
    for f in glob.glob(repdir + "/*"):
        os.unlink(f)

    runs = [r for r in P["runs"] if tier in r.get("tiers", ("quick", "thorough"))]
    only = os.environ.get("SYMX_ONLY")
    if only:
        runs = [r for r in runs if only in r["harness"]]
    # Build symbolic and native executables.
    exes = {}
    try:
        names = []
        for r in runs:
            k = (r["harness"], tuple(r["groups"]))
            if k not in names:
                names.append(k)
        build.plugin_and_gen()
        for h, g in names:
            exes[(h, g)] = [build.harness_exe(h, list(g)), None]
    except build.BuildError as e:
        print("BUILD-ERROR\n" + str(e))
        sys.exit(2)
    tb = time.time() - t0

    def native_exe(k):
        if exes[k][1] is None:
            exes[k][1] = build.harness_exe(k[0], list(k[1]), native=True)
        return exes[k][1]

    known = known_findings(pid)
    seen_known = {}
    tot = dict(paths=0, decisions=0, sat=0, unsat=0, unknown=0, fd=0, z3=0,
               cache=0, asserts=0, asserts_symbolic=0, stopped=0, z3_time=0.0,
               ticks=0, conc_forks=0)
    functions, externs, reach = set(), set(), {}
    unsupported = {}
    bounds, samples = [], []
    validated = mism = 0
    violations = []
    unconfirmed = []
    errors = []
    exhausted = True
    nrep = 0
    nruns = sum(len(r[tier if tier in r else "quick"]) for r in runs)
    nval = max(3, 128 // max(1, nruns))
    for ri, r in enumerate(runs):
        k = (r["harness"], tuple(r["groups"]))
        for params in r[tier if tier in r else "quick"]:
            params = dict(params)
            tl = params.pop("_t", 120 if tier == "quick" else 1500)
            out = os.path.join(build.BUILD, "out", "%s-%d" % (pid, os.getpid()))
            t1 = time.time()
            res, txt = explore(exes[k][0], params, tl, out, seed)
            if res is None:
                errors.append("%s %s: %s" % (r["harness"], params, txt[-1500:]))
                continue
            head, ws = res
            b = dict(harness=r["harness"], params=params,
                     exhausted=head["exhausted"], time_s=head["time"],
                     paths=sum(w["paths"] for w in ws),
                     queries=sum(w["sat"] + w["unsat"] for w in ws),
                     completed_paths=sum(w["paths"] - w["stopped"] for w in ws))
            bounds.append(b)
            if not head["exhausted"] or any(w["unknown"] for w in ws):
                exhausted = False
            for w in ws:
                for f in tot:
                    tot[f] += w[f]
                functions.update(w["functions"])
                externs.update(w["externs"])
                for n, c in w["unsupported"].items():
                    unsupported[n] = unsupported.get(n, 0) + c
                for lab, c in w["reach"].items():
                    reach[lab] = reach.get(lab, 0) + c
            # counterexamples: replay on the plain build before reporting
            todo, kn = [], []
            for w in ws:
                for v in w["viols"]:
                    ids = [x for x in v["known"].split(",") if x]
                    if any(x in known for x in ids):
                        for x in ids:
                            if x in known:
                                kn.append((x, v))
                    else:
                        todo.append(v)
            if kn or todo or ws:
                nexe = native_exe(k)
            for x, v in kn:
                if x in seen_known:
                    continue
                path = os.path.join(repdir, "known-%s.txt" % x)
                write_replay(path, params, v["model"])
                rc, o = native(nexe, path)
                if rc != 0:
                    seen_known[x] = path
            for v in todo[:12]:
                nrep += 1
                path = os.path.join(repdir, "%s-%d.txt" % (r["harness"], nrep))
                write_replay(path, params, v["model"])
                rc, o = native(nexe, path)
                if rc != 0:
                    violations.append((path, v, o))
                else:
                    unconfirmed.append((path, v, o))
            # validation of path models: native run must behave the same
            sm = [s for w in ws for s in w["samples"]]
            sm = sm[::max(1, len(sm) // nval)][:nval] if sm else sm
            if sm:
                tmp = os.path.join(build.BUILD, "out", "s%d" % os.getpid())

                def val(i):
                    p = "%s-%d" % (tmp, i)
                    write_replay(p, params, sm[i]["model"])
                    rc, o = native(nexe, p)
                    os.unlink(p)
                    return rc, o

                with cf.ThreadPoolExecutor(JOBS) as ex:
                    for i, (rc, o) in enumerate(ex.map(val, range(len(sm)))):
                        if rc == 0 and ("digest=" + sm[i]["digest"]) in o:
                            validated += 1
                        else:
                            mism += 1
                            if mism < 4:
                                errors.append(
                                    "native run disagrees with the symbolic "
                                    "run on %s %s: %s want %s" % (
                                        params, sm[i]["model"], o[-600:],
                                        sm[i]["digest"]))
                for s in sm[:2]:
                    if len(samples) < 8:
                        samples.append(dict(harness=r["harness"], params=params,
                                            model=s["model"]))
            sys.stderr.write("%s %s %s: %d paths %.1fs%s\n" % (
                pid, r["harness"], params, b["paths"], time.time() - t1,
                "" if head["exhausted"] else " (not exhausted)"))
            if violations and tier == "quick":
                break
        if violations and tier == "quick":
            break
    if not violations and not only:
        for lab in P.get("reach", []):
            if not reach.get(lab):
                errors.append("vacuous: witness '%s' was never reached" % lab)
        if runs and all(b["completed_paths"] == 0 for b in bounds):
            errors.append("vacuous: no path completed")
    repo_fns = sorted(f for f in functions if "nixf" in f or "nixd" in f
                      or "lspserver" in f)
    if unsupported:
        exhausted = False
        print("NOTE paths given up at calls the encoding does not cover: %s" %
              unsupported)
    cov = dict(
        states=tot["paths"], transitions=tot["decisions"],
        traces_validated_against_impl=validated, samples=samples,
        exhaustive=exhausted, bounds=P.get("bounds", ""), runs=bounds,
        functions_encoded=len(functions), repo_functions_encoded=repo_fns,
        external_functions_called=sorted(externs),
        queries=dict(total=tot["sat"] + tot["unsat"] + tot["unknown"],
                     sat=tot["sat"], unsat=tot["unsat"],
                     unknown=tot["unknown"],
                     decided_by_z3=tot["z3"], z3_cache_hits=tot["cache"],
                     decided_by_exact_byte_domain=tot["fd"],
                     z3_time_s=round(tot["z3_time"], 3)),
        assertions_evaluated=tot["asserts"],
        assertions_decided_symbolically=tot["asserts_symbolic"],
        reachability_witnesses=reach,
        paths_given_up_at_unmodelled_functions=unsupported,
        concretisation_forks=tot["conc_forks"],
        build_s=round(tb, 1), engine_errors=errors,
        known_findings=sorted(seen_known))
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking",
              coverage=cov,
              assumptions=props.COMMON_ASSUMPTIONS + P.get("assumptions", []),
              wall_s=round(time.time() - t0, 1), violations=len(violations))
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for x in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s (%s)" % (pid, known[x], x))
    for path, v, o in unconfirmed:
        print("UNCONFIRMED %s %s: %s | native: %s" % (
            path, v["label"], v["msg"], o.strip()[-300:]))
    for e in errors:
        print("ENGINE-ERROR " + e)
    if violations:
        shown = set()
        for path, v, o in violations:
            key = (v["label"], v["msg"])
            if key in shown:
                continue
            shown.add(key)
            line = [l for l in o.splitlines() if "REPLAY-VIOLATION" in l or
                    "ERROR: AddressSanitizer" in l or "runtime error" in l or
                    "Assertion" in l]
            print("  %s: %s" % (v["label"], v["msg"]))
            print("  input: %s" % " ".join("%s=%d" % tuple(m)
                                            for m in v["model"])[:1500])
            bs = bytes(m[1] for m in v["model"] if m[0] == "b" and m[1] < 256)
            if bs:
                print("  bytes: %r" % bs)
            print("  native: %s" % (line[0] if line else
                                    o.strip().splitlines()[-1:]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        sys.exit(1)
    if unconfirmed or errors:
        sys.exit(2)
    print("OK property=%s tier=%s paths=%d queries=%d validated=%d "
          "exhausted=%s wall=%.0fs" % (
              pid, tier, tot["paths"], tot["sat"] + tot["unsat"], validated,
              exhausted, time.time() - t0))
    sys.exit(0)


if __name__ == "__main__":
    main()

#!/usr/bin/env python3
"""Run the monitor(s) of one property: check.py P05 [--tier quick|thorough]

exit 0: held on everything explored; exit 1 + VIOLATION line: broken;
exit 2: the machinery itself failed (no verdict).
"""
import argparse, concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, time, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from plan import PLAN

ROOT = B.ROOT


def log(*a):
    print("[check]", *a, flush=True)


class Result:
    def __init__(self):
        self.viol = []      # (key, ctx, detail, section, driver, variant)
        self.stats = {}
        self.events = {}
        self.samples = []
        self.evals = 0
        self.distinct = 0
        self.sections = []
        self.inconclusive = []
        self.late = []


# A quick check must answer within its 900 s even on a slow machine: past
# START_BY no further section is started, past ANSWER_BY none is waited for.
# Sections given up for that reason are listed in the evidence; they are
# never reported as hangs.
START_BY, ANSWER_BY, HANG_AT_LEAST = 600, 830, 150
T0 = time.time()


def run_section(exe, driver, sec, seed, tier, variant, timeout, env_extra, small):
    quick = tier == "quick"
    if quick and time.time() - T0 > START_BY:
        return (driver, sec, variant, "late")
    scratch = tempfile.mkdtemp(prefix="vf_%s_" % sec.replace("/", "_"), dir=os.path.join(B.BUILD, "tmp"))
    env = dict(os.environ)
    env.update({"OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "HDF5_USE_FILE_LOCKING": "FALSE"})
    env["ASAN_OPTIONS"] = "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:abort_on_error=1"
    env["TSAN_OPTIONS"] = "halt_on_error=0:exitcode=0:history_size=7:io_sync=0:log_path=%s/tsan:second_deadlock_stack=1:report_thread_leaks=0" % scratch
    env.update(env_extra or {})
    cmd = [exe, "--section", sec, "--seed", str(seed), "--tier", tier, "--scratch", scratch]
    if small:
        cmd.append("--small")
    last = None
    try:
        for attempt in (1, 2):
            left = max(1, min(timeout, ANSWER_BY - (time.time() - T0))) if quick else timeout
            try:
                p = subprocess.run(cmd, cwd=scratch, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                   timeout=left, errors="replace")
                tlogs = ""
                for f in sorted(os.listdir(scratch)):
                    if f.startswith("tsan."):
                        tlogs += open(os.path.join(scratch, f), errors="replace").read()
                last = (p.returncode, p.stdout, p.stderr, tlogs)
                break
            except subprocess.TimeoutExpired:
                last = None      # rerun once before calling it a hang
                if left < HANG_AT_LEAST:
                    last = "late"
                    break
        return (driver, sec, variant, last)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


# races inside the C library that no program can avoid: lgamma() stores its
# sign in the global signgam, which nothing here reads
TSAN_IGNORE = ("lgamma", "signgam")


def tsan_reports(txt):
    """Deduplicate TSan reports by the pair of repository frames."""
    out = {}
    for blk in txt.split("=================="):
        if "WARNING: ThreadSanitizer" not in blk:
            continue
        kind = blk.split("WARNING: ThreadSanitizer: ")[1].split(" (")[0].strip()
        paras = [p for p in blk.split("\n\n")]
        tops = [next((l.strip() for l in p.splitlines() if l.strip().startswith("#0")), "") for p in paras]
        acc = [t for t, p in zip(tops, paras) if " by " in p and ("rite of" in p or "ead of" in p)]
        if acc and any(any(("#0 " + s) in t for s in TSAN_IGNORE) for t in acc):
            continue
        frames = []
        for para in paras:
            for line in para.splitlines():
                line = line.strip()
                m = re.match(r"#\d+ (.*) (\S*/repo/\S+|%s/\S+?):(\d+)" % re.escape(B.REPO), line)
                if m:
                    fn = m.group(1).replace("._omp_fn", "#omp").split("(")[0].split("<")[0].split(".")[0]
                    frames.append(os.path.basename(m.group(2).split(":")[0]) + ":" + fn.split(" ")[-1].split("::")[-1])
                    break
        key = "race:" + "|".join(sorted(set(frames[:2]))) if frames else "race:unknown-frames"
        out.setdefault(key, (kind, blk.strip()))
    return out


def parse(res, r, minev):
    driver, sec, variant, last = r
    tag = "%s[%s]%s" % (driver, variant, sec)
    if last == "late":
        res.late.append(tag)
        return
    if last is None:
        res.viol.append(("hang:" + sec, "watchdog", "section exceeded the watchdog twice", sec, driver, variant))
        return
    rc, out, err, tlogs = last
    done = False
    crash = None
    nev = 0
    for line in out.splitlines():
        f = line.split("\t")
        if f[0] == "VIOL" and len(f) >= 4:
            res.viol.append((f[1], f[2], f[3], sec, driver, variant))
        elif f[0] == "STAT":
            st = res.stats.setdefault(f[1], [0, 0.0, ""])
            st[0] += int(f[2])
            nev += int(f[2])
            try:
                r_ = float(f[3])
            except ValueError:
                r_ = float("inf")
            if not (r_ <= st[1]):
                st[1] = r_
                st[2] = f[4] if len(f) > 4 else ""
        elif f[0] == "EVENT":
            res.events[f[1]] = res.events.get(f[1], 0) + int(f[2])
        elif f[0] == "SAMPLE":
            if sum(1 for s in res.samples if s.startswith(tag)) < 2:
                res.samples.append(tag + ": " + f[1])
        elif f[0] == "COUNT":
            res.evals += int(f[1])
            res.distinct += int(f[2])
        elif f[0] == "CRASH":
            crash = f[1] if len(f) > 1 else "?"
        elif f[0] == "DONE":
            done = True
    if tlogs:
        for key, (kind, blk) in tsan_reports(tlogs).items():
            res.viol.append((key, sec, kind + ": " + " ".join(blk.split())[:1500], sec, driver, variant))
    if not done or crash is not None or rc != 0:
        if rc in (3, 4) and crash is None:
            raise B.BuildError("driver %s section %s did not start (rc=%s): %s" % (driver, sec, rc, err[-400:]))
        why = " ".join(err.split())[-1200:]
        first = ""
        for l in err.splitlines():
            if "ERROR: AddressSanitizer" in l or "runtime error:" in l or "Assertion" in l or "terminate called" in l:
                first = l.strip()
                break
        res.viol.append(("crash:" + sec, crash or "?", "exit status %s; %s; %s" % (rc, first, why), sec, driver, variant))
    elif nev == 0:
        res.inconclusive.append(tag + " observed nothing")
    res.sections.append((tag, nev))


def load_known():
    f = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(f):
        return []
    return json.load(open(f)).get("findings", [])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--stats", action="store_true")
    ap.add_argument("--only", default=None)
    a = ap.parse_args()
    t0 = time.time()
    prop, tier, seed = a.prop, a.tier, a.seed
    plan = PLAN[prop]
    os.makedirs(os.path.join(B.BUILD, "tmp"), exist_ok=True)
    res = Result()
    jobs = []
    try:
        for run in plan["runs"]:
            if run.get("tier") == "thorough" and tier != "thorough":
                continue
            kw = dict(variant=run.get("variant", "opt"), drivers=run["drivers"], groups=set(run["groups"]),
                      shims=run.get("shims", ()), log=log, openmp=run.get("openmp", True),
                      extra_flags=tuple(run.get("flags", ())) + tuple(run.get("flags_quick", ()) if tier == "quick" else ()), extra_link=run.get("link", ()))
            try:
                exes = B.build(**kw)
            except B.BuildError as e:
                if "linking" not in str(e):
                    raise
                # a refactoring may have moved a dependency to another layer
                log("link failed, retrying with the whole code base")
                kw["groups"] = {"fem", "general", "atomic", "sadatom", "diatomic"}
                kw["shims"] = tuple(sorted(set(kw["shims"]) | {"wignernj.cpp", "atomdb_data.cpp", "ooo_stub.cpp"}))
                exes = B.build(**kw)
            for d, exe in exes.items():
                secs = subprocess.run([exe, "--list"], capture_output=True, text=True).stdout.split()
                if not secs:
                    raise B.BuildError("driver %s lists no sections" % d)
                want = run.get("sections")
                if isinstance(want, dict):
                    want = want.get(d)
                for s in secs:
                    if want and s not in want:
                        continue
                    if s in run.get("skip", ()):
                        continue
                    if a.only and a.only not in s:
                        continue
                    for rep in range(run.get("repeat_thorough" if tier == "thorough" else "repeat", 1)):
                        jobs.append((exe, d, s, seed + 1000 * rep, tier, run.get("variant", "opt"),
                                     run.get("timeout", 330 if tier == "quick" else 2400), run.get("env"), run.get("small", False) and d not in run.get("full", ())))
        par = plan.get("parallel", B.JOBS)
        with cf.ThreadPoolExecutor(par) as ex:
            results = list(ex.map(lambda j: run_section(*j), jobs))
        for r in results:
            parse(res, r, 1)
        if not jobs:
            raise B.BuildError("no section selected")
    except B.BuildError as e:
        print("ERROR: no verdict for %s: %s" % (prop, e), file=sys.stderr)
        print("ERROR: no verdict for %s" % prop)
        sys.exit(2)

    known = [k for k in load_known() if k["property"] == prop and k.get("status", "open") == "open"]
    hit, new = {}, []
    for v in res.viol:
        key, ctx, detail = v[0], v[1], v[2]
        m = [k for k in known if k["key"] == key and k.get("context", "") in ctx and k.get("detail", "") in detail]
        if m:
            hit[m[0]["what"]] = hit.get(m[0]["what"], 0) + 1
        else:
            new.append(v)
    for k in known:
        if k["what"] in hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))

    nobs = sum(s[0] for s in res.stats.values())
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": plan.get("level", "exploration"),
        "coverage": {
            "evaluations": res.evals, "distinct_nontrivial": res.distinct,
            "rule": plan["rule"], "samples": res.samples[:24] or ["none"],
            "oracle_events": nobs,
            "oracle_event_kinds": {k: v[0] for k, v in sorted(res.stats.items())},
            "monitor_events": res.events,
            "sections": [s[0] for s in res.sections],
            "inconclusive": res.inconclusive,
            "not_run_for_lack_of_time": res.late,
        },
        "assumptions": plan.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    log("%s %s: %d cases (%d distinct), %d oracle events, %d violation reports, %.1f s" %
        (prop, tier, res.evals, res.distinct, nobs, len(new), time.time() - t0))
    if a.stats:
        for k, v in sorted(res.stats.items(), key=lambda kv: -kv[1][1]):
            print("  %-58s n=%-8d max err/tol=%.3g  %s" % (k, v[0], v[1], v[2][:110]))
        for k, v in sorted(res.events.items()):
            print("  event %-50s %d" % (k, v))
    if new:
        seen = set()
        rdir = os.path.join(ROOT, "build", "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s-%d.json" % (prop, tier, seed))
        json.dump([{"key": v[0], "context": v[1], "detail": v[2], "section": v[3], "driver": v[4], "variant": v[5],
                    "replay": "cd /verif && VERIF_SEED=%d python3 vf/check.py %s --tier %s --only %s" % (seed, prop, tier, v[3])}
                   for v in new], open(path, "w"), indent=1)
        for v in new:
            if v[0] in seen:
                continue
            seen.add(v[0])
            print("  violated: %s | %s | %s" % (v[0], v[1][:300], v[2][:400]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    if res.inconclusive or nobs == 0 or res.evals == 0:
        print("ERROR: inconclusive, %s" % (res.inconclusive or "nothing observed"))
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()

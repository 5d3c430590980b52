#!/usr/bin/env python3
"""Decides one property of /repo's current working tree.

    check.py C03            (tier from VERIF_TIER, quick by default; VERIF_SEED)
    check.py --setup        builds everything once

Deciding step: `cargo kani` (and `verus` where configured in verus/) discharges
every obligation of the property's contracts on the code of /repo. A refuted
obligation is replayed on the natively compiled real code. The same contracts
also run natively on generated inputs (supplementary search).

exit 0: held on everything explored (an obligation that the verifier could not
decide is printed as UNDECIDED and not counted as discharged; its contract was
still evaluated natively); exit 1: VIOLATION line; exit 2: no answer (the
contracts do not compile against the tree).
"""

import glob
import json
import os
import re
import resource
import signal
import subprocess
import tempfile
import sys
import threading
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
CRATE = os.path.join(ROOT, "harness")
BUILD = os.path.join(ROOT, "build")
EVID = os.path.join(ROOT, "evidence")
sys.path.insert(0, ROOT)
import config  # noqa: E402

ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
ENV.pop("RUSTFLAGS", None)
ENV.pop("CARGO_TARGET_DIR", None)

T0 = time.time()
TRUSTED = [
    "Kani 0.68.0 (MIR to GOTO translation, its model of the allocator and of std intrinsics), CBMC 6.11.0, CaDiCaL",
    "rustc: the verifier and the native build compile the same sources from /repo",
    "the contracts in /verif/harness/src state the property",
]


def say(*a):
    print(*a, flush=True)


MEM = 11 << 30


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))


def run(cmd, cwd, timeout, out=None):
    """Runs a command in its own process group; kills the group on timeout."""
    p = subprocess.Popen(cmd, cwd=cwd, env=ENV, stdin=subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         start_new_session=True, preexec_fn=limits)
    try:
        o, _ = p.communicate(timeout=max(1, timeout))
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, _ = p.communicate()
        rc = None
    return rc, o.decode(errors="replace")


def native_build(feature, timeout=400):
    rc, o = run(["cargo", "build", "--offline", "--quiet", "--features", feature,
                 "--target-dir", os.path.join(BUILD, "native")], CRATE, timeout)
    return (rc == 0), o


NATIVE = os.path.join(BUILD, "native", "debug", "native")


def harness_list():
    rc, o = run([NATIVE, "list"], CRATE, 30)
    kani, native = [], []
    for line in o.split("\n"):
        f = line.split()
        if len(f) == 2:
            (kani if f[0] == "kani" else native).append(f[1])
    return kani, native


def native_search(seed, secs, names, timeout=600):
    """-> {name: (inputs, rejected)} and {name: (hex, message)}"""
    ok, bad = {}, {}
    if not names:
        return ok, bad
    rc, o = run([NATIVE, "search", str(seed), str(secs)] + names, CRATE, timeout)
    for line in o.split("\n"):
        f = line.split(" ", 3)
        if f[0] == "OK":
            ok[f[1]] = (int(f[2]), int(f[3]))
        elif f[0] == "FAIL":
            # FAIL name hex message; the hex part is empty without any draw
            g = line.split(" ", 2)
            h = f[2] if re.fullmatch(r"[0-9a-f]*|seed:\d+", f[2]) else ""
            bad[f[1]] = (h, g[2][len(h):].strip())
    return ok, bad


def kani_cmd(feature, names, extra, target=None):
    cmd = ["cargo", "kani", "--lib", "--features", feature, "--target-dir",
           target or os.path.join(BUILD, "kani"),
           "-Z", "unstable-options", "-Z", "stubbing", "--no-assertion-reach-checks", "--exact"]
    for n in names:
        cmd += ["--harness", n]
    return cmd + extra + ["--cbmc-args", "--max-field-sensitivity-array-size", "1024"]


def kani(feature, names, per, total):
    """Runs the proofs. -> {name: result}, command line, build error text"""
    js = os.path.join(BUILD, f"kani-{feature}.json")
    if os.path.exists(js):
        os.remove(js)
    log = os.path.join(BUILD, "kani-logs")
    cmd = kani_cmd(feature, names, [
        "-j", str(config.JOBS), "--output-format", "terse", "--export-json", js,
        "--harness-timeout", f"{per}s"])
    rc, o = run(cmd, CRATE, total)
    with open(os.path.join(BUILD, f"kani-{feature}.log"), "w") as f:
        f.write(o)
    if not os.path.exists(js):
        err = "\n".join(l for l in o.split("\n") if l.startswith("error"))
        return {}, cmd, (err or f"no result within {total} s") + "\n" + o[-3000:]
    d = json.load(open(js))
    res = {}
    stats = {c["harness_id"]: c for c in d.get("cbmc", [])}
    errs = {c["harness_id"]: c for c in d.get("error_details", [])}
    for r in d["verification_results"]["results"]:
        n = r["harness_id"]
        checks = r.get("checks", [])
        st = stats.get(n, {}).get("cbmc_stats") or {}
        obl = [c for c in checks if c["category"] != "cover"]
        failed = [c for c in obl if c["status"] in ("Failure", "FAILURE")]
        passed = [c for c in obl if c["status"] in ("Success", "SUCCESS", "Unreachable", "UNREACHABLE")]
        cover = [c["status"] for c in checks if c["category"] == "cover" and c["description"] == "witness"]
        res[n] = dict(
            ok=(r["status"] == "Success"),
            obligations=len(obl), discharged=len(passed), failed=failed,
            reachable=any(c.lower() == "satisfied" for c in cover),
            error=errs.get(n, {}).get("error_message") or errs.get(n, {}).get("exit_status"),
            ms=r.get("duration_ms"),
            symex_s=st.get("runtime_symex_s"), solver_s=st.get("runtime_decision_procedure_s"),
            vccs=st.get("vccs_remaining"))
    return res, cmd, None


INCONCLUSIVE = ("unwinding assertion", "recursion unwinding", "is not currently supported by kani",
                "stub:", "unsupported", "unreachable code in drop glue")


def real_failures(r):
    out = []
    for c in r["failed"]:
        d = c["description"].lower()
        if c["category"] in ("unwind", "unsupported_construct", "recursion") or \
           any(k in d for k in INCONCLUSIVE):
            continue
        out.append(c)
    return out


def concrete(feature, name, per):
    """Counterexamples of a refuted harness, as byte strings."""
    cmd = kani_cmd(feature, [name], ["-Z", "concrete-playback", "--concrete-playback=print",
                                     "--harness-timeout", f"{per}s"])
    rc, o = run(cmd, CRATE, per + 60)
    found = []
    for block in re.findall(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", o, re.S):
        hexs = ""
        for v in re.findall(r"^\s*vec!\[([^\]]*)\]", block, re.M):
            hexs += "".join(f"{int(x):02x}" for x in re.split(r"[,\s]+", v) if x)
        found.append("kani:" + hexs)
    return found


def replay(name, hexs):
    if hexs.startswith("seed:"):
        # an evaluation that does not end, or takes all memory
        rc, o = run([NATIVE, "replay", name, hexs], CRATE, 20)
        return rc not in (0, 101), o.strip() or "does not end"
    with tempfile.NamedTemporaryFile("w", suffix=".hex") as f:
        f.write(hexs)
        f.flush()
        rc, o = run([NATIVE, "replay", name, "@" + f.name], CRATE, 60)
    return rc == 1 and o.startswith("FAIL"), o.strip()


def write_replay(prop, name, d):
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    p = os.path.join(EVID, "replay", f"{prop}-{name.replace('::', '-')}.json")
    with open(p, "w") as f:
        json.dump(d, f, indent=1)
    return p


def checkable(feature, name):
    return {"rebuild": f"cd {CRATE} && cargo build --offline --features {feature} --target-dir {BUILD}/native",
            "verify": " ".join(kani_cmd(feature, [name], []))}


def decide(prop, tier, seed):
    cfg = config.PROPERTIES[prop]
    feature = prop.lower()
    thorough = tier == "thorough"
    total = config.TOTAL[tier]
    per = config.PER_HARNESS[tier]
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    for old in glob.glob(os.path.join(EVID, "replay", f"{prop}-*.json")):
        os.remove(old)
    ev = dict(property=prop, tier=tier, seed=seed, level=cfg["level"], coverage={}, assumptions=[], wall_s=0, violations=0)
    cov = ev["coverage"]
    undecided, violations = [], []

    verus_result = {}
    verus_thread = None
    both = False
    if cfg.get("verus"):
        import verus_layer

        def work():
            try:
                verus_result.update(verus_layer.check(cfg["verus"], min(300, total), prop))
            except Exception as e:  # extraction trouble is no verdict
                verus_result["undecided"] = f"{type(e).__name__}: {e}"
        verus_thread = threading.Thread(target=work)
        verus_thread.start()

    built, o = native_build(feature)
    kh, nh, results, ok, bad, cmd = [], [], {}, {}, {}, []
    if not built:
        say("contracts do not compile against the current tree:")
        say(o[-4000:])
        undecided.append("the contracts do not compile against the current tree: no obligation was generated")
    else:
        kh, nh = ([n for n in l if n.startswith(feature + "::")] for l in harness_list())
        if not thorough:
            kh = [n for n in kh if not n.endswith("_deep")]
            nh = [n for n in nh if not n.endswith("_deep")]
        nh += [n for n in kh if n.split("::")[-1] in config.NATIVE_ONLY]
        kh = [n for n in kh if n.split("::")[-1] not in config.NATIVE_ONLY]
        # harnesses that are compiled but whose proof only runs in the thorough tier
        skip = [n for n in kh if not thorough and n.split("::")[-1] in config.THOROUGH_ONLY]
        kh = [n for n in kh if n not in skip]
        secs = cfg.get("search_s", 1.0) * (10 if thorough else 1)
        names = kh + skip + nh
        budget = config.SEARCH_TOTAL[tier]
        secs = max(0.2, min(secs, budget * 8 / max(1, len(names))))
        ok, bad = native_search(seed, secs, names)
        left = total - (time.time() - T0)
        if kh:
            results, cmd, err = kani(feature, kh, per, left)
            if err:
                undecided.append("verifier gave no result: " + err[:2000])
            for n in kh:
                if n not in results and not err:
                    undecided.append(f"{n}: no verdict")

    if verus_thread:
        verus_thread.join()
        if verus_result.get("refuted") and built and not bad and all(r["ok"] and r["reachable"] for r in results.values()):
            # one back end does not discharge an obligation: a longer search for
            # a failing input, and the proofs that otherwise run in the thorough tier
            secs = min(4.0, 200.0 / max(1, len(names)))
            more, bad = native_search(seed + 1, secs, names)
            for n, (i, j) in more.items():
                ok[n] = (ok.get(n, (0, 0))[0] + i, ok.get(n, (0, 0))[1] + j)
            extra = [n for n in skip if config.ON_REFUTATION.search(n.split("::")[-1])]
            left = total - (time.time() - T0)
            if cfg.get("contents") and extra and not bad and left > 30:
                again, _, err = kani(feature, extra, per, left)
                results.update(again)
                skip = [n for n in skip if n not in extra]
                if err:
                    undecided.append("verifier gave no result: " + err[:2000])
                both = not err and all(n in again for n in extra)
            else:
                both = not bad

    refuted = []
    for n, r in results.items():
        if r["ok"] and r["reachable"]:
            continue
        if r["ok"]:
            undecided.append(f"{n}: the end of the contract is unreachable (vacuous)")
            r["discharged"] = 0
            continue
        real = real_failures(r)
        if not real:
            why = sorted({c["description"] for c in r["failed"]}) or [str(r["error"])]
            undecided.append(f"{n}: {'; '.join(why)[:300]}")
            continue
        refuted.append((n, real))

    # a failing input found by running the contracts on the real code
    for n, (h, msg) in bad.items():
        again, text = replay(n, h)
        obl = [f"{c['description']} [{c['location'].get('file')}:{c['location'].get('line')}]"
               for c in dict(refuted).get(n, [])]
        p = write_replay(prop, n, dict(property=prop, contract=n, input=h, failed=msg, reproduced=again,
                                       replay=f"{NATIVE} replay {n} {h}", refuted_obligations=obl,
                                       **checkable(feature, n)))
        if again:
            violations.append(f"VIOLATION property={prop} replay={p}")
            say(f"{n}: fails on the real code: {msg}")
    # a refuted obligation without such an input
    tries = 0
    for n, real in refuted:
        if n in bad:
            continue
        hit = None
        if built and tries < 3 and not violations and time.time() - T0 < config.TOTAL_HARD - per:
            tries += 1
            for h in concrete(feature, n, per):
                again, text = replay(n, h)
                if again:
                    hit = (h, text)
                    break
        obl = [f"{c['description']} [{c['location'].get('file')}:{c['location'].get('line')}]" for c in real]
        for x in obl:
            say(f"{n}: obligation refuted: {x}")
        if hit:
            p = write_replay(prop, n, dict(property=prop, contract=n, input=hit[0], failed=hit[1], reproduced=True,
                                           replay=f"{NATIVE} replay {n} {hit[0]}", refuted_obligations=obl,
                                           **checkable(feature, n)))
            violations.append(f"VIOLATION property={prop} replay={p}")
        elif n.split("::")[-1] in config.STUBBED:
            # the assumed contract of a replaced function may be what fails
            undecided.append(f"{n}: refuted under an assumed contract, not reproduced on the real code: {obl[:3]}")
        else:
            p = write_replay(prop, n, dict(property=prop, contract=n, input=None, reproduced=False,
                                           refuted_obligations=obl, verifier_output=real,
                                           **checkable(feature, n)))
            violations.append(f"VIOLATION property={prop} replay={p} no-failing-input-found")

    vo = vd = 0
    if verus_thread:
        v = verus_result
        vo, vd = v.get("obligations", 0), v.get("discharged", 0)
        cov["verus"] = v
        if v.get("undecided"):
            undecided.append("verus: " + v["undecided"])
        for name, text in v.get("refuted", {}).items():
            say(f"verus: {name} refuted")
            p = write_replay(prop, "verus-" + name, dict(property=prop, obligation=name, verifier_output=text, input=None))
            if both and cfg.get("contents") and not refuted and all(r["ok"] and r["reachable"] for r in results.values()):
                # Kani discharges the same contract for every content
                undecided.append(f"{name}: discharged by Kani for every content and searched natively for every length, not by Verus")
            elif not violations:
                violations.append(f"VIOLATION property={prop} replay={p} no-failing-input-found")

    def bounded(n):
        return bool(config.BOUNDED.search(n.split("::")[-1]))

    def held(r):
        return bool(r["ok"] and r["reachable"])

    def count(key, names):
        return sum(results[n][key] for n in names)

    full = [n for n in results if not bounded(n)]
    part = [n for n in results if bounded(n)]
    cov.update(
        obligations=count("obligations", full) + vo,
        discharged=count("discharged", full) + vd,
        checker_cmd="; ".join(([" ".join(cmd)] if cmd else []) + [u["cmd"] for u in (verus_result.get("units") or [])]) or "not started",
        trusted_base=TRUSTED + cfg.get("trusted", []) + (verus_layer.TRUSTED if verus_thread else []),
        contracts_proved=sum(held(results[n]) for n in full),
        contracts_for_proof=sum(not bounded(n) for n in kh),
        bounded=dict(label="bounded: not counted as proved", bounds=cfg.get("bounds"),
                     contracts=sum(bounded(n) for n in kh), held=sum(held(results[n]) for n in part),
                     obligations=count("obligations", part), discharged=count("discharged", part)),
        proof_only_in_thorough_tier=sorted(skip) if built else [],
        contracts=[dict(contract=n, bounded=bounded(n), held=held(r), obligations=r["obligations"],
                        discharged=r["discharged"], back_end="Kani/CBMC/CaDiCaL", symex_s=r["symex_s"],
                        solver_s=r["solver_s"], verification_conditions=r["vccs"], ms=r["ms"])
                   for n, r in sorted(results.items())],
        solver_s=round(sum(r["solver_s"] or 0 for r in results.values()), 3),
        functions_under_contract=cfg["functions"],
        undecided=undecided,
        native_search=dict(seed=seed, evaluations=sum(a for a, _ in ok.values()),
                           rejected=sum(b for _, b in ok.values()),
                           per_contract={n: a for n, (a, _) in sorted(ok.items())}),
        evaluations=sum(a for a, _ in ok.values()),
    )
    if cfg["level"] != "proof":
        cov["explanation"] = cfg.get("explanation", "Contracts on the real functions, discharged by Kani within the stated bound for every content; "
                                         "bounded, not counted as proved. Longer histories and larger configurations are searched natively.")
    ev["assumptions"] = cfg.get("assumptions", [])
    ev["violations"] = len(violations)
    ev["wall_s"] = round(time.time() - T0, 2)
    with open(os.path.join(EVID, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)

    for u in undecided:
        say("UNDECIDED " + u[:600].replace("\n", " | "))
    for line in config.known_findings(prop):
        say(line)
    if violations:
        for v in violations:
            say(v)
        return 1
    if not built:
        say(f"{prop}: no answer")
        return 2
    b = cov["bounded"]
    say(f"{prop}: {cov['contracts_proved']}/{cov['contracts_for_proof']} contracts proved, "
        f"{cov['discharged']}/{cov['obligations']} obligations discharged; "
        f"{b['held']}/{b['contracts']} contracts held within bounds; "
        f"{len(undecided)} undecided, {cov['evaluations']} native evaluations, {ev['wall_s']} s")
    return 0


def setup():
    os.makedirs(BUILD, exist_ok=True)
    ok, o = native_build("all")
    say(o[-2000:] if not ok else "native driver built")
    return 0 if ok else 1


def main():
    if sys.argv[1:] == ["--setup"]:
        sys.exit(setup())
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    sys.exit(decide(prop, tier, seed))


if __name__ == "__main__":
    main()

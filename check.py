#!/usr/bin/env python3
"""Run the runtime-monitoring check of one property against /repo's working tree.

usage: check.py <ID>                     (VERIF_TIER, VERIF_SEED from the environment)
       check.py <ID> --replay FILE       re-run the case a replay file names, with its trace
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: no answer.
"""
import json, os, re, resource, shutil, struct, subprocess, sys, tempfile, time, hashlib

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
GOROOTBIN = "/opt/veriftools/go1.27.3/bin"
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402


def plain(s):
    """s without control and undecodable characters, fit for a log"""
    return "".join(c if c.isprintable() or c in "\n\t" else c.encode("unicode_escape", "replace").decode() for c in s)


def die(msg, code=2):
    print("ERROR: " + msg, file=sys.stderr)
    sys.exit(code)


def goenv(gopath):
    env = dict(os.environ)
    for k in ("GOROOT", "GOOS", "GOARCH", "GOEXPERIMENT", "GODEBUG", "GORACE", "GOMAXPROCS", "GOGC", "GOMEMLIMIT"):
        env.pop(k, None)
    env.update(PATH=GOROOTBIN + ":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
               GOPATH=gopath, GO111MODULE="off", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="", GOWORK="off",
               GOCACHE=os.environ.get("GOCACHE", "/root/.cache/go-build"), LC_ALL="C.UTF-8")
    return env


class DoesNotCompile(Exception):
    """code made from the repository's templates does not compile"""


def delays(gp, gen):
    """An overlay in which the code under test uses vp/fx/atomic and vp/fx/sync, which
    pause between its steps; None if nothing in it uses sync or sync/atomic."""
    roots = [os.path.join(gp, "src/github.com/vipally/gx")]
    if gen:
        roots = [os.path.join(gp, "src/vp/tpl")]
    rep, d = {}, os.path.join(os.path.dirname(gp), "delays")
    os.makedirs(d)
    for root in roots:
        for dp, dirs, files in os.walk(root):
            dirs[:] = [x for x in dirs if x != ".git"]
            for n in files:
                p = os.path.join(dp, n)
                if not n.endswith(".go") or n.endswith("_test.go") or os.path.getsize(p) > 1 << 20:
                    continue
                s = open(p, errors="surrogateescape", newline="").read()
                t = re.sub(r'^(\s*(?:import\s+)?(?:[\w.]+\s+)?)"sync(/atomic)?"(?=\s*(?:$|;|//|/\*))', lambda m: m.group(1) + '"vp/fx/%s"' % ("atomic" if m.group(2) else "sync"), s, flags=re.M)
                if t != s:
                    q = os.path.join(d, "%d.go" % len(rep))
                    open(q, "w", errors="surrogateescape", newline="").write(t)
                    rep[p] = q
    if not rep:
        return None
    f = os.path.join(d, "overlay.json")
    json.dump({"Replace": rep}, open(f, "w"))
    return f


def build(work, cmd, flags, gen, fx=False):
    gp = os.path.join(work, "gopath")
    os.makedirs(os.path.join(gp, "src/github.com/vipally"))
    os.symlink(REPO, os.path.join(gp, "src/github.com/vipally/gx"))
    if gen:
        # the harness is copied, as generated sources are added to it
        shutil.copytree(os.path.join(VERIF, "harness"), os.path.join(gp, "src/vp"))
        r = subprocess.run([sys.executable, os.path.join(VERIF, gen), REPO, os.path.join(gp, "src/vp")], env=goenv(gp),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 7:
            raise DoesNotCompile(r.stdout)
        if r.returncode:
            die("generating the harness failed:\n" + r.stdout[-4000:])
    else:
        os.symlink(os.path.join(VERIF, "harness"), os.path.join(gp, "src/vp"))
    d = os.path.join(gp, "src/vp/cmd", cmd)
    env = goenv(gp)
    env["PWD"] = d
    out = os.path.join(work, "bin")
    t = time.time()
    ov = delays(gp, gen) if fx else None
    for o in [["-overlay=" + ov], []] if ov else [[]]:
        # through a shell cd, so that the symlinked path stays the package's path
        p = subprocess.run(["bash", "-c", 'cd "$1" && shift && exec go build "$@"', "-", d] + flags + o + ["-o", out, "."],
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            if o:
                flags.append("delays between steps")
            break
    if p.returncode:
        die("build failed:\n" + p.stdout[-4000:])
    return out, gp, time.time() - t


def known_findings(pid):
    f = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(f):
        return {}
    return {e["key"]: e for e in json.load(open(f)).get("findings", []) if e["property"] == pid}


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in CHECKS:
        die("usage: check.py <ID>; known: " + " ".join(sorted(CHECKS)))
    pid = sys.argv[1]
    ck = CHECKS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    only = None
    if "--replay" in sys.argv:
        rp = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        only, seed, tier = "%s:%d" % (rp["section"], rp["case"]), rp["seed"], rp["tier"]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="vp-%s-" % pid)
    try:
        code = run(pid, ck, tier, seed, only, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


START = 150  # seconds until main has to be reached
GRACE = 25   # seconds the other shards have to end once one has failed


def ended(procs, wall, t0):
    """Yields (shard, directory, process, exit status) as the shards end: None if one
    gave no answer in time, "stuck" if it never reached main, "stopped" if it was still
    running after another one had failed."""
    left, stop, begun = list(procs), None, time.time()
    while left:
        for x in list(left):
            i, out, p = x
            rc = p.poll()
            now = time.time()
            if rc is None:
                if now - t0 > wall:
                    pass
                elif stop and now > stop:
                    rc = "stopped"
                elif now - begun > START and not os.path.exists(os.path.join(out, "journal")):
                    rc = "stuck"
                else:
                    continue
                p.kill()
                p.wait()
            left.remove(x)
            if rc not in ("stopped", None, 0) and not stop:
                stop = now + GRACE
            yield i, out, p, rc
        time.sleep(0.05)


def run(pid, ck, tier, seed, only, work, t0):
    race = ck.get("race", False)
    flags = list(ck.get("flags", []))
    if race:
        flags.append("-race")
    try:
        binp, gp, build_s = build(work, ck["cmd"], flags, ck.get("gen"), ck.get("fx"))
    except DoesNotCompile as e:
        return violation(pid, {"section": "generate", "case": -1, "seed": seed, "tier": tier, "stack": str(e), "trace": [],
                               "msg": "the code made from the templates does not compile: " + str(e)[:1500]})
    fails, reports, errors, races = one_round(pid, ck, tier, seed, only, work, t0, binp, gp)
    rounds = 1
    while (tier == "thorough" and not only and not fails and not errors and rounds < ROUNDS and time.time() - t0 < DEEP
           and not (reports and all(r.get("exhaustive") for r in reports))):
        # further rounds with other seeds
        f, more, e, k = one_round(pid, ck, tier, seed + rounds * 1000003, None, work, t0, binp, gp)
        fails, errors, races, rounds = fails + f, errors + e, races + k, rounds + 1
        reports.extend(more)
    known = known_findings(pid)
    kf_lines = []
    for r in reports:
        for k, what in (r.get("Findings") or {}).items():
            if k in known:
                line = "KNOWN-FINDING: property=%s %s" % (pid, known[k]["what"])
                if line not in kf_lines:
                    kf_lines.append(line)
            else:
                fails.append({"section": "finding", "case": -1, "seed": seed, "tier": tier, "msg": what + " [%s]" % k,
                              "stack": "", "trace": []})
    if errors and not fails:
        for e in errors:
            print("ERROR: " + e, file=sys.stderr)
        return 2
    if not only:
        evidence(pid, ck, tier, seed, reports, races, fails, build_s, race, flags, t0, kf_lines, rounds)
    for line in kf_lines:
        print(line)
    if fails:
        return violation(pid, fails[0])
    print("%s held: %d case(s), %.1f s" % (pid, sum(r["cases"] for r in reports), time.time() - t0))
    return 0


ROUNDS = 50  # at most so many rounds of the thorough tier, and none
DEEP = int(os.environ.get("VP_DEEP") or 600)  # begun after so many seconds


def one_round(pid, ck, tier, seed, only, work, t0, binp, gp):
    nsh = 1 if only else ck.get("shards", 6)
    procs = []
    for i in range(nsh):
        out = os.path.join(work, "out%d" % i)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(os.path.join(out, "tmp"))
        env = goenv(gp)
        env.update(VP_PROP=pid, VP_TIER=tier, VP_SEED=str(seed), VP_SHARD=str(i), VP_NSHARD=str(nsh), VP_OUT=out,
                   VP_BUDGET=str(ck.get("budget", 240) if tier == "quick" else ck.get("budget_thorough", 3000)),
                   GOMAXPROCS=str(ck.get("procs", 2)), TMPDIR=os.path.join(out, "tmp"), HOME=os.path.join(out, "tmp"),
                   GORACE="halt_on_error=0 exitcode=0 history_size=3 log_path=" + os.path.join(out, "race"))
        env.update(ck.get("env", {}))
        if only:
            env["VP_ONLY"] = only
            env["VP_SHOW"] = "1"
        ef = open(os.path.join(out, "stderr"), "wb")
        so = None if only else open(os.path.join(out, "stdout"), "wb")
        kw = {}
        if ck.get("nobody") and os.geteuid() == 0:
            # code that moves and removes files runs as a user who owns
            # nothing but the scratch directory
            os.chmod(work, 0o755)
            for d in (out, os.path.join(out, "tmp")):
                os.chown(d, 65534, 65534)
            kw = dict(user=65534, group=65534, extra_groups=[65531, 65532])
        procs.append((i, out, subprocess.Popen([binp], env=env, cwd=os.path.join(out, "tmp"), stdout=so, stderr=ef, **kw)))
    wall = 780 if tier == "quick" else 6 * 3600
    fails, reports, errors, races = [], [], [], 0
    race_txt = ""
    for i, out, p, rc in ended(procs, wall, t0):
        if rc is None:
            errors.append("shard %d: no answer within %d s (case %s)" % (i, wall, journal(out)))
            continue
        if rc == "stuck":
            fails.append({"section": "start", "case": -1, "seed": seed, "tier": tier, "stack": "", "trace": [],
                          "msg": "the packages under test do not get through their initialisation: main was not reached in %d s" % START})
            continue
        if rc == "stopped":
            continue
        rf = os.path.join(out, "report.json")
        err = open(os.path.join(out, "stderr"), errors="replace").read()
        for n in sorted(os.listdir(out)):
            if n.startswith("race."):
                t = open(os.path.join(out, n), errors="replace").read()
                k = t.count("WARNING: DATA RACE")
                if k and not race_txt:
                    race_txt = t[:8000]
                races += k
        if os.path.exists(rf):
            r = json.load(open(rf))
            hb = open(os.path.join(out, "hashes.bin"), "rb").read()
            r["hashes"] = struct.unpack("<%dQ" % (len(hb) // 8), hb)
            reports.append(r)
            if r.get("fail"):
                fails.append(r["fail"])
        elif rc in (3, -9) or rc == 0:
            errors.append("shard %d ended with %d: %s" % (i, rc, err[-2000:]))
        else:
            # the process under test died: the journal names the case
            j = journal(out)
            sec, _, idx = j.partition(":")
            fails.append({"section": sec, "case": int(idx) if idx.isdigit() else -1, "seed": seed, "tier": tier,
                          "msg": "the process crashed (exit status %s)" % rc, "stack": err[:8000], "trace": []})
    if races:
        fails.append({"section": "race-detector", "case": -1, "seed": seed, "tier": tier,
                      "msg": "%d data race report(s)" % races, "stack": race_txt, "trace": []})
    return fails, reports, errors, races


def violation(pid, f):
    f["property"] = pid
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(json.dumps(f, sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(d, "%s-%s.json" % (pid, h))
    json.dump(f, open(path, "w"), indent=1)
    print("%s section=%s case=%s: %s" % (pid, f["section"], f["case"], plain(f["msg"][:2000])))
    if f.get("trace"):
        for line in f["trace"][-30:]:
            print("    " + plain(line[:300]))
    print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1


def journal(out):
    try:
        return open(os.path.join(out, "journal"), "rb").read().split(b"\n")[0].decode()
    except OSError:
        return "?"


def evidence(pid, ck, tier, seed, reports, races, fails, build_s, race, flags, t0, kf_lines, rounds):
    hs = set()
    counts, maxes, persec, samples = {}, {}, {}, []
    evals = cases = 0
    trunc = False
    rule = ""
    for r in reports:
        hs.update(r["hashes"])
        for k, v in (r.get("counts") or {}).items():
            counts[k] = counts.get(k, 0) + v
        for k, v in (r.get("maxes") or {}).items():
            maxes[k] = max(maxes.get(k, v), v)
        for k, v in (r.get("cases_per_section") or {}).items():
            persec[k] = persec.get(k, 0) + v
        for s in r.get("samples") or []:
            if len([x for x in samples if x.split(":")[0] == s.split(":")[0]]) < 2:
                samples.append(s)
        evals += r["evaluations"]
        cases += r["cases"]
        trunc = trunc or r.get("truncated", False)
        rule = r["rule"]
    cov = {"evaluations": evals, "distinct_nontrivial": len(hs), "rule": rule, "samples": samples or ["(none)"],
           "cases": cases, "cases_per_section": persec, "observed": counts, "maxima": maxes,
           "truncated_by_time": trunc, "instrumentation": (["go race detector"] if race else []) + flags,
           "race_reports": races, "rounds": rounds, "build_s": round(build_s, 1)}
    if reports and all(r.get("exhaustive") for r in reports) and not trunc and not fails:
        cov["exhaustive"] = True
    if kf_lines:
        cov["known_findings_seen"] = kf_lines
    ev = {"property": pid, "tier": tier, "seed": seed, "level": ck.get("level", "exploration"), "coverage": cov,
          "assumptions": ck.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(fails)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", pid + ".json")
    json.dump(ev, open(p + ".tmp", "w"), indent=1)
    os.replace(p + ".tmp", p)


if __name__ == "__main__":
    main()

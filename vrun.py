#!/usr/bin/env python3
"""Driver of the runtime-monitoring checks.

  vrun.py check <ID>            build the harnesses of a property from /repo's working tree, run them, judge, write evidence
  vrun.py replay <replay file>  run the one case of a violation again
  vrun.py setup                 check that the tools are there (setup_cmd)
  vrun.py build [ID...]         build only

Exit 0: no monitor fired.  Exit 1: a violation which known_findings.jsonl does not list (VIOLATION line printed).
Exit 2: no verdict (build failed, the harness could not run, or the monitors observed too little).
"""
import hashlib, json, os, re, shutil, subprocess, sys, time, signal

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
JOBS = os.cpu_count() or 4
if TIER not in ("quick", "thorough"):
    TIER = "quick"

sys.path.insert(0, VERIF)
from checks import CHECKS, LIBS, VARIANTS, COMMON_INC  # noqa: E402


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


# ---------------------------------------------------------------------------------------------------------------- build
def project_sources(lib):
    """src/**/*.cpp named in the project's CMakeLists.txt (comments skipped) minus what cannot be built here."""
    d = os.path.join(REPO, lib["dir"])
    if "glob" in lib:
        import glob
        files = sorted(os.path.relpath(p, d) for p in glob.glob(os.path.join(d, lib["glob"])))
    else:
        text = open(os.path.join(d, "CMakeLists.txt")).read()
        text = re.sub(r"#[^\n]*", "", text)
        files = []
        for m in re.findall(r"src/[A-Za-z0-9_/.-]+\.cpp", text):
            if m not in files:
                files.append(m)
    for extra in lib.get("extra", []):
        if extra not in files:
            files.append(extra)
    out = []
    for f in files:
        if any(re.fullmatch(p, f) for p in lib.get("exclude", [])):
            continue
        if not os.path.exists(os.path.join(d, f)):
            continue
        out.append(f)
    return out


def nesc(s):
    return s.replace("$", "$$").replace(":", "$:").replace(" ", "$ ")


def gen_ninja(ids):
    os.makedirs(BUILD, exist_ok=True)
    L = ["ninja_required_version = 1.5", "builddir = " + BUILD, ""]
    for vn, v in VARIANTS.items():
        L += ["rule cxx_%s" % vn,
              "  command = %s %s $flags -MMD -MF $out.d -c $in -o $out" % (v["cxx"], v["flags"]),
              "  depfile = $out.d", "  deps = gcc", "  description = CXX %s $out" % vn, ""]
        L += ["rule link_%s" % vn,
              "  command = %s %s -o $out $in $libs" % (v["cxx"], v["link"]),
              "  description = LINK $out", ""]
    L += ["rule copy", "  command = cp -f $in $out", ""]
    L += ["rule ar", "  command = rm -f $out && ar crs $out $in", "  description = AR $out", ""]
    done = set()
    targets = {}
    libtargets = {}

    def lib_archive(libname, variant):
        key = (libname, variant)
        if key in libtargets:
            return libtargets[key]
        lib = LIBS[libname]
        objs = []
        inc = " ".join("-I" + os.path.join(REPO, i) for i in lib["inc"])
        for f in project_sources(lib):
            src = os.path.join(REPO, lib["dir"], f)
            obj = os.path.join(BUILD, variant, libname, f.replace("/", "__") + ".o")
            flags = COMMON_INC(VERIF, REPO, BUILD) + " " + inc + " " + lib.get("flags", "").format(BUILD=BUILD, VERIF=VERIF)
            flags += " " + lib.get("file_flags", {}).get(f, "").format(BUILD=BUILD, VERIF=VERIF)
            L.append("build %s: cxx_%s %s" % (nesc(obj), variant, nesc(src)))
            L.append("  flags = " + flags)
            objs.append(obj)
        a = os.path.join(BUILD, variant, "lib%s.a" % libname)
        L.append("build %s: ar %s" % (nesc(a), " ".join(map(nesc, objs))))
        libtargets[key] = a
        return a

    def bpmpd():
        if "bpmpd" in libtargets:
            return libtargets["bpmpd"]
        d = os.path.join(BUILD, "bpmpd")
        exe = os.path.join(d, "bpmpd_caller")
        obj = os.path.join(d, "bpmpd_caller.o")
        sco = os.path.join(REPO, "trajopt_sco")
        L.append("build %s: cxx_plain %s" % (nesc(obj), nesc(os.path.join(sco, "src/bpmpd_caller.cpp"))))
        L.append("  flags = -I%s/include -I%s/trajopt_common/include -isystem /usr/include/eigen3 "
                 "-DBPMPD_WORKING_DIR='\"%s\"'" % (sco, REPO, d))
        L.append("build %s: link_plain %s %s" % (nesc(exe), nesc(obj), nesc(os.path.join(sco, "3rdpartylib/bpmpd_linux64.a"))))
        L.append("  libs = -static")
        par = os.path.join(d, "bpmpd.par")
        L.append("build %s: copy %s" % (nesc(par), nesc(os.path.join(sco, "src/bpmpd.par"))))
        fake = os.path.join(d, "fake_bpmpd")
        L.append("build %s: cxx_plain %s" % (nesc(fake + ".o"), nesc(os.path.join(VERIF, "harness/fake_bpmpd.cpp"))))
        L.append("  flags = -I%s/include -I%s/trajopt_common/include -isystem /usr/include/eigen3" % (sco, REPO))
        L.append("build %s: link_plain %s" % (nesc(fake), nesc(fake + ".o")))
        L.append("  libs = ")
        libtargets["bpmpd"] = [exe, par, fake]
        return libtargets["bpmpd"]

    for pid in ids:
        outs = []
        for h in CHECKS[pid]["harnesses"]:
            variant = h.get("variant", "asan")
            name = h["name"]
            objs = []
            inc = ""
            for libname in h["libs"]:
                inc += " " + " ".join("-I" + os.path.join(REPO, i) for i in LIBS[libname]["inc"])
            for s in h["src"]:
                src = os.path.join(VERIF, "harness", s)
                obj = os.path.join(BUILD, variant, "harness", name + "__" + s + ".o")
                L.append("build %s: cxx_%s %s" % (nesc(obj), variant, nesc(src)))
                L.append("  flags = " + COMMON_INC(VERIF, REPO, BUILD) + inc + " -I%s/harness " % VERIF + h.get("flags", "").format(BUILD=BUILD, VERIF=VERIF))
                objs.append(obj)
            archives = [lib_archive(x, variant) for x in h["libs"] if not LIBS[x].get("header_only")]
            exe = os.path.join(BUILD, variant, "bin", name)
            deps = ""
            if h.get("bpmpd"):
                deps = " || " + " ".join(map(nesc, bpmpd()))
            L.append("build %s: link_%s %s %s%s" % (nesc(exe), variant, " ".join(map(nesc, objs)), "", " | " + " ".join(map(nesc, archives)) + deps if archives else deps))
            libs = " ".join(archives) + " "
            for x in h["libs"]:
                libs += LIBS[x].get("link", "") + " "
            L.append("  libs = -Wl,--start-group " + " ".join(archives) + " -Wl,--end-group " +
                     " ".join(LIBS[x].get("link", "") for x in h["libs"]) + " -lpthread " + h.get("link", ""))
            outs.append(exe)
            if h.get("bpmpd"):
                outs += bpmpd()
        L.append("build %s: phony %s" % (pid, " ".join(map(nesc, outs))))
    path = os.path.join(BUILD, "build.%s.ninja" % ("all" if len(ids) > 1 else ids[0]))
    open(path, "w").write("\n".join(L) + "\n")
    return path


def build(ids):
    path = gen_ninja(ids)
    # one ninja at a time in the build folder
    import fcntl
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = sh(["ninja", "-f", path, "-j", str(JOBS), "-C", BUILD] + ids)
    return r.returncode == 0, r.stdout


# ------------------------------------------------------------------------------------------------------- known findings
def known_findings(pid):
    out = {}
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith("#"):
                continue
            e = json.loads(line)
            if e.get("property") == pid and e.get("status") == "known":
                out[e["key"]] = e["what"]
    return out


# ----------------------------------------------------------------------------------------------------------------- run
def san_env(variant, extra=None):
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1:handle_abort=1:symbolize=1"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:abort_on_error=1:halt_on_error=1"
    env["TSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1:second_deadlock_stack=1:suppressions=%s" % os.path.join(VERIF, "tsan.supp")
    env["TRAJOPT_LOG_THRESH"] = "FATAL"
    env["OMP_NUM_THREADS"] = env.get("VERIF_OMP", "2")
    env["LC_ALL"] = "C"
    env.pop("TRAJOPT_CONVEX_SOLVER", None)
    env["TRAJOPT_VERIF_CALLER"] = os.path.join(BUILD, "bpmpd", "bpmpd_caller")
    if extra:
        env.update(extra)
    return env


def read_progress(path):
    try:
        b = open(path, "rb").read()
        fam = b[:64].split(b"\0")[0].decode(errors="replace")
        idx = int.from_bytes(b[64:72], sys.byteorder, signed=True)
        cnt = int.from_bytes(b[72:80], sys.byteorder, signed=True)
        return fam, idx, cnt
    except Exception:
        return "", 0, 0


CASE_TIMEOUT = 90


_NO_ASLR = None


def no_aslr(variant):
    """The race detector's runtime dislikes a high-entropy address layout."""
    global _NO_ASLR
    if variant != "tsan":
        return []
    if _NO_ASLR is None:
        try:
            _NO_ASLR = ["setarch", "-R"] if sh(["setarch", "-R", "true"]).returncode == 0 else []
        except Exception:
            _NO_ASLR = []
    return _NO_ASLR


def spawn(h, outdir, tag, args, variant):
    exe = os.path.join(BUILD, variant, "bin", h["name"])
    out = os.path.join(outdir, tag)
    log = open(out + ".log", "ab")
    env = san_env(variant, {k: v.format(BUILD=BUILD, VERIF=VERIF) for k, v in h.get("env", {}).items()})
    scratch = os.path.join(outdir, "cwd_" + tag)
    os.makedirs(scratch, exist_ok=True)
    p = subprocess.Popen(no_aslr(variant) + [exe, "--seed", str(SEED), "--tier", TIER, "--out", out] + args,
                         stdout=log, stderr=subprocess.STDOUT, env=env, cwd=scratch, start_new_session=True)
    return p, out


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except Exception:
        pass
    p.wait()


def crash_key(text):
    """A stable name for a crash: sanitizer kind + first frame inside the repository."""
    kind = "crash"
    m = re.search(r"ERROR: AddressSanitizer: (\S+)", text)
    if m:
        kind = "asan:" + m.group(1)
    m2 = re.search(r"runtime error: ([^\n]{0,80})", text)
    if m2:
        kind = "ubsan:" + re.sub(r"0x[0-9a-f]+|-?\d+", "N", m2.group(1))[:60]
    m3 = re.search(r"WARNING: ThreadSanitizer: ([^\n(]+)", text)
    if m3:
        kind = "tsan:" + m3.group(1).strip().replace(" ", "-")
    m4 = re.search(r"Assertion [`'](.*?)' failed", text)
    if m4 and kind == "crash":
        kind = "assert:" + m4.group(1)[:80]
    m5 = re.search(r"terminate called[^\n]*", text)
    if m5 and kind == "crash":
        kind = "terminate"
    frame = ""
    if kind.startswith("tsan:"):
        for m in re.finditer(r"#\d+ ([^\n]*?) (/\S+?):\d+ \(", text):
            if "/repo/" in m.group(2) or m.group(2).startswith(REPO):
                return kind + "@" + re.sub(r"\(.*", "", m.group(1))
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in ([^\n]*?) (\S+?):\d+", text):
        if "/repo/" in m.group(2) or m.group(2).startswith(REPO):
            frame = re.sub(r"\(.*", "", m.group(1))
            break
    return kind + ("@" + frame if frame else "")


def run_harness(pid, h, outdir):
    """Returns dict(results=[json...], violations=[...], errors=[...])"""
    variant = h.get("variant", "asan")
    nsh = h.get("shards", JOBS)
    res = {"results": [], "violations": [], "errors": [], "crashes": 0}
    procs = {}
    for s in range(nsh):
        p, out = spawn(h, outdir, "%s.%d" % (h["name"], s), ["--shard", "%d/%d" % (s, nsh)], variant)
        procs[s] = {"p": p, "out": out, "cnt": -1, "t": time.time(), "restarts": 0, "part": 0}
    case_to = h.get("case_timeout", CASE_TIMEOUT)
    while procs:
        time.sleep(0.05)
        for s in list(procs):
            st = procs[s]
            rc = st["p"].poll()
            fam, idx, cnt = read_progress(st["out"] + ".prog")
            if rc is None:
                if cnt != st["cnt"]:
                    st["cnt"], st["t"] = cnt, time.time()
                elif time.time() - st["t"] > case_to:
                    kill(st["p"])
                    # inconclusive until the same case, alone, hangs again
                    tag = "%s.%d.hang%d" % (h["name"], s, st["restarts"])
                    q, qout = spawn(h, outdir, tag, ["--replay", "%s:%d" % (fam, idx)], variant)
                    try:
                        q.wait(case_to * 2)
                        hung = False
                    except subprocess.TimeoutExpired:
                        hung = True
                    kill(q)
                    if hung:
                        res["violations"].append({"family": fam, "idx": idx, "key": "hang:" + fam, "harness": h["name"],
                                                  "msg": "the case does not end within %d s (twice)" % (case_to * 2), "trace": ""})
                    elif os.path.exists(qout + ".json"):
                        res["results"].append(json.load(open(qout + ".json")))
                        res["violations"] += read_viol(qout, h)
                    restart(h, outdir, procs, s, st, fam, idx, nsh, variant, res)
                continue
            if rc == 0 and os.path.exists(st["out"] + ".json"):
                try:
                    res["results"].append(json.load(open(st["out"] + ".json")))
                except Exception as e:
                    res["errors"].append("unreadable results: %s" % e)
                res["violations"] += read_viol(st["out"], h)
                del procs[s]
                continue
            text = open(st["out"] + ".log", errors="replace").read()[-60000:]
            res["violations"] += read_viol(st["out"], h)
            if cnt <= 0 and rc != 3 and (rc in (-4, -6, -8, -11) or re.search("ERROR: AddressSanitizer|runtime error:|Assertion [`']", text)):
                # dies before the first case: in the static initialisers of the libraries themselves
                res["violations"].append({"family": "startup", "idx": 0, "key": "startup:" + crash_key(text), "harness": h["name"],
                                          "msg": "the process died (status %s) loading the libraries; last output:\n%s" % (rc, text[-3000:]),
                                          "trace": ""})
                del procs[s]
                continue
            if rc == 3 or cnt <= 0:
                res["errors"].append("%s exited %s: %s" % (h["name"], rc, text[-2000:]))
                del procs[s]
                continue
            if rc == -9 and not re.search("Sanitizer|runtime error", text):
                res["errors"].append("%s was killed (out of memory?) in %s:%d" % (h["name"], fam, idx))
                del procs[s]
                continue
            res["crashes"] += 1
            res["violations"].append({"family": fam, "idx": idx, "key": crash_key(text) + ":" + fam, "harness": h["name"],
                                      "msg": "the process died (status %s) running the case; last output:\n%s" % (rc, text[-6000:]),
                                      "trace": ""})
            restart(h, outdir, procs, s, st, fam, idx, nsh, variant, res)
    return res


def restart(h, outdir, procs, s, st, fam, idx, nsh, variant, res):
    st["restarts"] += 1
    if st["restarts"] > 6:
        del procs[s]
        return
    tag = "%s.%d.r%d" % (h["name"], s, st["restarts"])
    p, out = spawn(h, outdir, tag, ["--shard", "%d/%d" % (s, nsh), "--resume", "%s:%d" % (fam, idx + 1)], variant)
    procs[s] = {"p": p, "out": out, "cnt": -1, "t": time.time(), "restarts": st["restarts"], "part": 0}


def read_viol(out, h):
    r = []
    try:
        for line in open(out + ".viol", errors="replace"):
            try:
                v = json.loads(line)
                v["harness"] = h["name"]
                r.append(v)
            except Exception:
                pass
    except FileNotFoundError:
        pass
    return r


def check(pid):
    t0 = time.time()
    spec = CHECKS[pid]
    evp = os.path.join(VERIF, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(evp), exist_ok=True)
    ok, log = build([pid])
    if not ok:
        print(log[-8000:])
        print("ERROR: the harness of %s does not build from the working tree; no verdict" % pid)
        return 2
    tb = time.time() - t0
    outdir = os.path.join(BUILD, "run", pid)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    cases, events, samples, distinct, viols, errors = {}, {}, [], set(), [], []
    for h in spec["harnesses"]:
        if h.get("tier") and h["tier"] != TIER:
            continue
        r = run_harness(pid, h, outdir)
        errors += r["errors"]
        viols += r["violations"]
        for j in r["results"]:
            for k, n in j["cases"].items():
                cases[h["name"] + "/" + k] = cases.get(h["name"] + "/" + k, 0) + n
            for k, n in j["events"].items():
                events[k] = events.get(k, 0) + n
            samples += j["samples"]
            distinct |= set(j["distinct"])
    known = known_findings(pid)
    new, old = {}, {}
    for v in viols:
        (old if v["key"] in known else new).setdefault(v["key"], []).append(v)
    for k in sorted(known):
        # the finding is printed whether or not this run's sample of inputs met it
        print("KNOWN-FINDING: property=%s %s [%s; met %d time(s) in this run]" % (pid, known[k], k, len(old.get(k, []))))
    missing = ["%s (%d < %d)" % (e, events.get(e, 0), n) for e, n in spec.get("require", {}).items() if events.get(e, 0) < n]
    rdir = os.path.join(VERIF, "replay")
    rc = 0
    for k, vs in sorted(new.items()):
        os.makedirs(rdir, exist_ok=True)
        v = vs[0]
        path = os.path.join(rdir, "%s_%s.json" % (pid, hashlib.sha1(k.encode()).hexdigest()[:10]))
        json.dump({"property": pid, "key": k, "harness": v["harness"], "family": v["family"], "idx": v["idx"], "seed": SEED,
                   "tier": TIER, "msg": v["msg"], "trace": v.get("trace", ""), "count": len(vs),
                   "how": "VERIF_SEED=%d VERIF_TIER=%s python3 %s/vrun.py replay %s" % (SEED, TIER, VERIF, path)},
                  open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  %s (%d report(s)), %s:%d: %s" % (k, len(vs), v["family"], v["idx"], v["msg"][:1500]))
        if v.get("trace"):
            print("  trace: " + v["trace"][:800])
        rc = 1
    total = sum(cases.values())
    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": spec.get("level", "exploration"),
          "coverage": {"evaluations": total, "distinct_nontrivial": len(distinct), "rule": spec["rule"],
                       "samples": samples[:12] if samples else ["none"], "cases_per_family": cases,
                       "observed_events": events,
                       "builds": sorted(set(h.get("variant", "asan") for h in spec["harnesses"])),
                       "known_findings_met": {k: len(v) for k, v in old.items()}},
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
          "violations": sum(len(v) for v in new.values())}
    json.dump(ev, open(evp, "w"), indent=1)
    if rc == 0 and (errors or missing or total == 0):
        for e in errors:
            print("ERROR: " + e)
        if missing:
            print("ERROR: the monitors observed too little to judge: " + ", ".join(missing))
        return 2
    print("%s: %d cases, %d distinct non-trivial, %d events observed, %d violation(s); build %.1fs, total %.1fs" %
          (pid, total, len(distinct), sum(events.values()), ev["violations"], tb, time.time() - t0))
    return rc


def replay(path):
    global SEED, TIER
    r = json.load(open(path))
    SEED, TIER = r["seed"], r["tier"]
    ok, log = build([r["property"]])
    if not ok:
        print(log[-4000:])
        return 2
    h = [x for x in CHECKS[r["property"]]["harnesses"] if x["name"] == r["harness"]][0]
    outdir = os.path.join(BUILD, "run", "replay")
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    p, out = spawn(h, outdir, "replay", ["-v", "--replay", "%s:%d" % (r["family"], r["idx"])], h.get("variant", "asan"))
    try:
        p.wait(300)
    except subprocess.TimeoutExpired:
        kill(p)
        print("still running after 300 s")
    print(open(out + ".log", errors="replace").read()[-12000:])
    vs = read_viol(out, h)
    for v in vs:
        print(json.dumps(v, indent=1))
    return 1 if vs or p.returncode not in (0,) else 0


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "check":
        return check(sys.argv[2])
    if sys.argv[1] == "setup":
        # nothing can be kept between runs: make sure that the tools are there and that the build files can be written
        for t in ("g++", "ninja", "ar"):
            if shutil.which(t) is None:
                print("missing tool: " + t)
                return 2
        print("ready: " + os.path.basename(gen_ninja(sorted(CHECKS))))
        return 0
    if sys.argv[1] == "build":
        ids = sys.argv[2:] or sorted(CHECKS)
        ok, log = build(ids)
        print(log[-4000:])
        return 0 if ok else 2
    if sys.argv[1] == "replay":
        return replay(sys.argv[2])
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())

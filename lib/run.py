#!/usr/bin/env python3
"""Runs the check of one property: run.py <ID> [--tier quick|thorough] | run.py --replay <ID> <file>

Stages (see DESIGN.md):
 P  contract proofs: every function contract listed in checks/<ID>/spec.py is
    enforced on the function text in /repo by goto-instrument --dfcc and its
    obligations are discharged by cbmc, callee by callee, loop by loop.
 O  the executable form of the same property run against the real code
    (sanitizers on), bounded; supplies failing inputs.
"""
import sys, os, json, time, subprocess, tempfile, shutil, concurrent.futures, re, hashlib, signal
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
LIB = VERIF + "/lib"
STUBS = VERIF + "/stubs"
DNSTABLE_SRC = ["entry", "iter", "merge", "query", "query_mtbl", "reader", "triplet", "util"]
NCPU = min(8, os.cpu_count() or 8)
CBMC_FLAGS = ["--drop-unused-functions", "--no-malloc-may-fail", "--json-ui", "--verbosity", "8", "--unwinding-assertions"]
SOFT = ("loop_invariant_base", "loop_invariant_step", "loop_assigns", "loop_decreases", "loop_step_unwinding", "unwind", "recursion",
        "single_top_level_call", "no_recursive_call", "no_alloc_dealloc_in_requires", "no_alloc_dealloc_in_ensures")
LIBFN = ("__CPROVER_contracts_", "__CPROVER_")

def sh(cmd, timeout=None, cwd=None, mem_gb=None, env=None):
    def pre():
        os.setsid()
        if mem_gb:
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (int(mem_gb * 2**30),) * 2)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, preexec_fn=pre, env=env)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf8", "replace"), e.decode("utf8", "replace"), False
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        o, e = p.communicate()
        return -9, o.decode("utf8", "replace"), e.decode("utf8", "replace"), True

class Proof:
    def __init__(self, d, spec, cdir, work):
        self.d = d; self.cdir = cdir; self.work = work; self.spec = spec
        self.name = d["name"]

    def build_and_run(self, tag, contracts_hooks, unwind, unwind_assert, defs, timeout, extra=()):
        d = self.d
        a = f"{self.work}/{self.name}.{tag}.a.gb"; b = f"{self.work}/{self.name}.{tag}.b.gb"
        src = f"{self.cdir}/{d['src']}"
        cc = ["goto-cc", "-DVP_CBMC", "-D_GNU_SOURCE", "-I" + LIB, "-I" + self.cdir, "-I" + STUBS, "-I" + REPO, "-I" + REPO + "/dnstable", "-I" + REPO + "/libmy"]
        if d.get("gen"):	# files made mechanically from the source on every run (what is dropped is stated in the spec)
            gd = f"{self.work}/{self.name}.gen"; os.makedirs(gd, exist_ok=True)
            try:
                for fn, text in d["gen"](REPO).items(): open(f"{gd}/{fn}", "w").write(text)
            except Exception as ex:
                return dict(status="error", stage="goto-cc", detail=f"extraction: {ex}", cmd="")
            cc += ["-I" + gd]
        cc += ["-D" + x for x in defs]
        if contracts_hooks: cc += ["-DDNSTABLE_CONTRACTS"]
        cc += list(d.get("cflags", []))
        cc += ["--function", d["harness"], src, "-o", a] + [x.format(REPO=REPO) for x in d.get("extra_src", [])]
        rc, o, e, to = sh(cc, 120)
        r = dict(cmd=" ".join(cc), stage="goto-cc")
        if rc != 0:
            r.update(status="error", detail=(o + e)[-3000:]); return r
        if d.get("enforce") or contracts_hooks and d.get("loops") or d.get("replace"):
            gi = ["goto-instrument", "--no-malloc-may-fail", "--dfcc", d["harness"]]
            if d.get("enforce"): gi += ["--enforce-contract", d["enforce"]]
            for x in d.get("replace", []): gi += ["--replace-call-with-contract", x]
            if contracts_hooks and d.get("loops"): gi += ["--apply-loop-contracts"]
            gi += list(d.get("gi_flags", []))
            gi += [a, b]
            rc, o, e, to = sh(gi, 300)
            r["cmd"] += " && " + " ".join(gi)
            r["stage"] = "goto-instrument"
            if rc != 0:
                r.update(status="error", detail=(o + e)[-3000:]); return r
        else:
            b = a
        cb = ["cbmc", b] + [f for f in CBMC_FLAGS]
        if not unwind_assert: cb.remove("--unwinding-assertions"); cb.append("--no-unwinding-assertions")
        if not unwind and d.get("loops"): unwind = 12
        if unwind: cb += ["--unwind", str(unwind)]
        if d.get("unwindset"): cb += ["--unwindset", ",".join(d["unwindset"])]
        solver = d.get("solver", "sat")
        if solver != "sat": cb += ["--" + solver]
        cb += list(d.get("cbmc_flags", [])) + list(extra)
        r["cmd"] += " && " + " ".join(cb)
        r["stage"] = "cbmc"
        t = time.time()
        rc, o, e, to = sh(cb, timeout, mem_gb=d.get("mem_gb", 10))
        r["time"] = time.time() - t
        if to:
            r.update(status="timeout", detail=f"no answer within {timeout}s"); return r
        try:
            js = json.loads(o)
        except Exception:
            r.update(status="error", detail=(o[-2000:] + e[-1000:])); return r
        results = None; solver_s = 0.0; msgs = []
        for x in js:
            if "result" in x: results = x["result"]
            t_ = x.get("messageText", "")
            m = re.search(r"Runtime decision procedure: ([\d.e+-]+)s", t_)
            if m: solver_s += float(m.group(1))
            if x.get("messageType") == "ERROR": msgs.append(t_)
        if results is None:
            r.update(status="error", detail="; ".join(msgs)[-2000:] + e[-1000:]); return r
        fails, vac, n, unk = [], None, 0, []
        classes = {}
        for q in results:
            if q["description"].startswith("vacuity"):
                if not q["property"].startswith(d["harness"] + "."): continue
                vac = (q["status"] == "FAILURE") if vac is None else (vac and q["status"] == "FAILURE"); continue
            if q["property"].startswith(LIBFN):
                if q["status"] == "FAILURE" and not q["property"].startswith("__CPROVER_contracts_make_invalid"):
                    fails.append(q)
                continue
            n += 1
            cls = re.sub(r"\.\d+$", "", q["property"]).split(".")[-1]
            classes[cls] = classes.get(cls, 0) + 1
            if q["status"] == "FAILURE": fails.append(q)
            elif q["status"] not in ("SUCCESS",): unk.append(q)
        r.update(n=n, solver_s=solver_s, classes=classes)
        r["fails"] = [dict(property=q["property"], description=q["description"], cls=re.sub(r"\.\d+$", "", q["property"]).split(".")[-1],
                           loc=(q.get("sourceLocation") or {}).get("file", "") + ":" + (q.get("sourceLocation") or {}).get("line", ""),
                           trace=q.get("trace")) for q in fails]
        if fails:
            soft = [f for f in r["fails"] if f["cls"] in SOFT]
            r["status"] = "failed-soft" if soft else "failed"
        elif unk: r.update(status="error", detail="undetermined obligations")
        elif vac is None or not vac: r.update(status="vacuous", detail="the reachability probe was not reachable")
        elif n == 0: r.update(status="vacuous", detail="no obligations")
        else: r["status"] = "proved"
        return r

    def run(self):
        d = self.d
        r = self.build_and_run("p", bool(d.get("loops")), d.get("unwind"), True, d.get("defs", []), d.get("timeout", 200))
        r["name"] = self.name
        if r["status"] == "proved": return r
        # The proof did not go through.  Check the same contract, bounded, without loop contracts.
        if r["status"] in ("error",) and r["stage"] == "goto-cc" and d.get("nofallback"): return r
        fb = d.get("fallback", {})
        if r["status"] == "failed" and not d.get("loops") and not d.get("abstract"):
            return r   # nothing was abstracted except callee contracts: the failure stands
        b = self.build_and_run("f", False, fb.get("unwind", d.get("unwind") or 8), False, list(d.get("defs", [])) + list(fb.get("defs", ["VP_BOUNDED"])), fb.get("timeout", 150))
        r["fallback"] = b
        return r

def load_spec(pid):
    cdir = f"{VERIF}/checks/{pid}"
    g = {"REPO": REPO, "VERIF": VERIF}
    exec(compile(open(cdir + "/spec.py").read(), cdir + "/spec.py", "exec"), g)
    return g, cdir

def oracle_cmd(orc, cdir, out, fuzzer=False):
    cc = ["clang", "-std=gnu11", "-g", "-O1", "-fno-omit-frame-pointer", "-D_GNU_SOURCE", "-DVP_NATIVE", "-I" + cdir, "-I" + LIB, "-I" + STUBS, "-I" + REPO, "-I" + REPO + "/dnstable", "-w"]
    san = orc.get("san", "address,undefined")
    cc += ["-fsanitize=" + (san + ",fuzzer" if fuzzer else san), "-fno-sanitize-recover=all"]
    if "undefined" in san: cc += ["-fno-sanitize=" + ",".join(["alignment"] + orc.get("nosan", []))]
    if fuzzer: cc += ["-DVP_LIBFUZZER"]
    cc += orc.get("cflags", [])
    for s in orc["src"]:
        if s.startswith("{DNS"):       # every library source, minus the ones the oracle includes itself
            minus = s.strip("{}").split("-")[1:]
            cc += [f"{REPO}/dnstable/{m}.c" for m in DNSTABLE_SRC if m not in minus]
            cc += [REPO + "/libmy/my_format.c", STUBS + "/mtbl_exec.c", STUBS + "/wdns_exec.c"]
        else: cc.append(f"{cdir}/{s}" if not s.startswith(("{", "/")) else s.format(REPO=REPO, LIB=LIB, STUBS=STUBS))
    cc += [LIB + "/vp_driver.c", "-o", out] + orc.get("libs", ["-lm", "-lpthread"])
    return cc

def run_oracle(pid, orc, cdir, work, tier, seed, idx):
    """one executable oracle; returns a dict"""
    name = orc.get("name", f"oracle{idx}")
    exe = f"{work}/{name}"
    cc = oracle_cmd(orc, cdir, exe)
    rc, o, e, to = sh(cc, 300)
    res = dict(name=name, cmd=" ".join(cc))
    if rc != 0:
        res.update(status="error", detail=(o + e)[-3000:]); return res
    secs = orc.get("secs", 8) if tier == "quick" else orc.get("thorough_secs", 240)
    fo = f"{work}/{name}.fail"
    args = [exe, f"--seed={seed}", f"--secs={secs}", f"--workers={orc.get('workers', NCPU)}", f"--maxlen={orc.get('maxlen', 512)}", f"--failout={fo}",
            f"--caselimit={orc.get('caselimit', 60)}"]
    if "cases" in orc: args.append(f"--cases={orc['cases']}")
    rc, o, e, to = sh(args, secs + 200, cwd=work)
    if to: res.update(status="error", detail="driver timeout"); return res
    try:
        j = json.loads(o.strip().splitlines()[-1])
    except Exception:
        res.update(status="error", detail=(o + e)[-2000:]); return res
    res.update(evaluations=j["evaluations"], distinct=j["distinct_nontrivial"], samples=j["samples"])
    if j["failed"] and os.path.exists(fo):
        res.update(confirm_failure(exe, fo, work, orc)); return res
    if j["failed"]:
        res.update(status="error", detail=e[-2000:]); return res
    res["status"] = "ok"
    if tier == "thorough" and orc.get("fuzz", True):
        r2 = run_fuzzer(orc, cdir, work, name, orc.get("thorough_fuzz_secs", 240), seed)
        res["fuzz_execs"] = r2.get("execs", 0)
        if r2.get("input"):
            res.update(confirm_failure(exe, r2["input"], work, orc))
    return res

def run_fuzzer(orc, cdir, work, name, secs, seed):
    fexe = f"{work}/{name}.fuzz"
    rc, o, e, to = sh(oracle_cmd(orc, cdir, fexe, fuzzer=True), 300)
    if rc != 0: return dict(error=(o + e)[-1000:])
    cor = f"{work}/{name}.corpus"; os.makedirs(cor, exist_ok=True)
    art = f"{work}/{name}.art-"
    procs = []
    rc, o, e, to = sh([fexe, cor, f"-max_total_time={secs}", f"-seed={seed}", f"-max_len={orc.get('maxlen', 512)}", f"-fork={NCPU}", "-ignore_crashes=0",
                       f"-artifact_prefix={art}", "-print_final_stats=1", "-detect_leaks=0", "-timeout=60", "-rss_limit_mb=3000"], secs + 120, cwd=work)
    m = re.findall(r"#(\d+)", e)
    r = dict(execs=int(m[-1]) if m else 0)
    import glob
    a = sorted(glob.glob(art + "*"))
    a = [x for x in a if "oom" not in x and "slow" not in x]
    if a: r["input"] = a[0]
    return r

def confirm_failure(exe, fo, work, orc):
    """re-run the failing input alone; shrink it a little"""
    def fails(path):
        rc, o, e, to = sh([exe, f"--replay={path}", f"--caselimit={orc.get('caselimit', 60)}"], 150, cwd=work)
        return (rc != 0 and not to), o, e
    ok, o, e = fails(fo)
    if not ok:
        ok2, o, e = fails(fo)
        if not ok2: return dict(status="ok", unconfirmed=1)
    data = open(fo, "rb").read()
    sig = failsig(e)
    t0 = time.time()
    def tryd(d):
        p = fo + ".min"
        open(p, "wb").write(d)
        k, _, e2 = fails(p)
        return k and failsig(e2) == sig
    if "does not finish" not in e:
        n = len(data)
        step = max(1, n // 2)
        while step >= 1 and time.time() - t0 < 12:
            cut = data[:max(0, len(data) - step)]
            if len(data) and tryd(cut): data = cut
            else: step //= 2
        i = 0
        while i < len(data) and time.time() - t0 < 20:
            k = 8 if i % 8 == 0 and i + 8 <= len(data) else 1
            if any(data[i:i+k]):
                d2 = data[:i] + bytes(k) + data[i+k:]
                if tryd(d2): data = d2; i += k; continue
            i += k if not any(data[i:i+k]) or k == 1 else 1
    p = fo + ".final"
    open(p, "wb").write(data)
    k, o, e = fails(p)
    if not k:
        open(p, "wb").write(open(fo, "rb").read()); k, o, e = fails(p)
    return dict(status="violation", input=open(p, "rb").read().hex(), stdout=o[-6000:], stderr=e[-6000:], sig=failsig(e))

def failsig(e):
    m = re.search(r"VP-FAIL[^:]*: ([^\n]*)", e)
    if m: return "disagreement: " + re.sub(r"0x[0-9a-f]+|\d+", "N", m.group(1))[:120]
    m = re.search(r"(ERROR: AddressSanitizer: [\w-]+|runtime error: [^\n]*)", e)
    fn = re.search(r"#\d+ 0x[0-9a-f]+ in (\w+) [^\n]*(?:/repo/|\brepo/)", e)
    if m: return re.sub(r"0x[0-9a-f]+|\d+", "N", m.group(1)) + (" in " + fn.group(1) if fn else "")
    m = re.search(r"Assertion `([^']*)' failed", e)
    if m: return "assertion " + m.group(1)
    return "abnormal end"

def known_findings(pid):
    out = []
    try:
        for l in open(VERIF + "/known-findings.txt"):
            l = l.strip()
            if not l or l.startswith("#") or l.startswith("fixed:"): continue
            m = re.match(r"property=(\w+) match=(\S+) (.*)", l)
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3)))
    except FileNotFoundError: pass
    return out

def write_replay(pid, what, content):
    rd = f"{VERIF}/evidence/replay"; os.makedirs(rd, exist_ok=True)
    h = hashlib.sha1(json.dumps(content, sort_keys=True, default=str).encode()).hexdigest()[:10]
    p = f"{rd}/{pid}-{what}-{h}.json"
    json.dump(content, open(p, "w"), indent=1, default=str)
    return p

def trim_trace(tr):
    if not tr: return None
    out = []
    for s in tr:
        if s.get("stepType") == "assignment" and not s.get("hidden"):
            v = s.get("value", {})
            l = s.get("lhs", "")
            if "__CPROVER" in l or "write_set" in l: continue
            out.append(f"{(s.get('sourceLocation') or {}).get('file','')}:{(s.get('sourceLocation') or {}).get('line','')}: {l} = {v.get('data', v.get('name',''))}")
    return [l for l in out if not re.search(r": (ptr|size|__check_lhs\w*(\$\d+)?|__entered_loop\w*) =|\$object", l)][-400:]

def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay": return replay(a[1], a[2])
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    spec, cdir = load_spec(pid)
    work = tempfile.mkdtemp(prefix=f"vp-{pid}-")
    try:
        rc = check(pid, spec, cdir, work, tier, seed, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return rc

def check(pid, spec, cdir, work, tier, seed, t0):
    proofs = [Proof(d, spec, cdir, work) for d in spec.get("PROOFS", []) if tier == "thorough" or not d.get("thorough_only")]
    if tier == "thorough":
        for p in proofs: p.d["timeout"] = max(p.d.get("timeout", 200), p.d.get("thorough_timeout", 900))
    oracles = spec.get("ORACLES", [])
    presults, oresults = [], []
    # oracle first (uses all CPUs for a few seconds), then the proofs in parallel
    for i, o in enumerate(oracles):
        oresults.append(run_oracle(pid, o, cdir, work, tier, seed, i))
    with concurrent.futures.ThreadPoolExecutor(max_workers=spec.get("JOBS", NCPU)) as ex:
        presults = list(ex.map(lambda p: p.run(), proofs))
    violations, lines, known = [], [], []
    kf = known_findings(pid)
    for o in oresults:
        if o["status"] == "violation":
            hit = [k for k in kf if re.search(k[0], o["sig"].replace(" ", "_"))]
            if hit:
                known.append((o, hit[0])); continue
            rp = write_replay(pid, o["name"], dict(property=pid, kind="failing input", oracle=o["name"], signature=o["sig"], input_hex=o["input"],
                 how="python3 %s/lib/run.py --replay %s <this file>" % (VERIF, pid), stdout=o["stdout"], stderr=o["stderr"], build=o["cmd"]))
            violations.append(f"VIOLATION property={pid} replay={rp}")
            print(f"[{pid}] {o['name']}: {o['sig']}")
    nff = []
    undecided = []
    for r in presults:
        st = r["status"]
        if st == "proved": continue
        hard = None
        if st == "failed" and not ("fallback" in r):
            hard = r
        elif "fallback" in r:
            fb = r["fallback"]
            if fb["status"] in ("failed", "failed-soft") and [f for f in fb["fails"] if f["cls"] not in SOFT]:
                hard = fb
            elif fb["status"] in ("proved", "vacuous") and st in ("failed", "failed-soft", "timeout", "error"):
                # the contract holds bounded; the unbounded argument no longer goes through as annotated
                undecided.append((r["name"], st, "bounded check of the same contract passes"))
                r["bounded_ok"] = True
                continue
            elif st == "failed" and not next(d for d in spec["PROOFS"] if d["name"] == r["name"]).get("soft"):
                hard = r
        if hard is not None: nff.append((r, hard))
        else: undecided.append((r["name"], st, r.get("detail", "")[-400:] or str([f["property"] for f in r.get("fails", [])][:6])))
    if nff and not violations:
        # look harder for a concrete input before reporting
        found = False
        for i, o in enumerate(oracles):
            if oresults[i]["status"] != "ok" or not o.get("fuzz", True): continue
            r2 = run_fuzzer(o, cdir, work, o.get("name", f"oracle{i}"), spec.get("TRIAGE_SECS", 25), seed)
            if r2.get("input"):
                c = confirm_failure(f"{work}/{o.get('name', f'oracle{i}')}", r2["input"], work, o)
                if c["status"] == "violation":
                    rp = write_replay(pid, oresults[i]["name"], dict(property=pid, kind="failing input", oracle=oresults[i]["name"], signature=c["sig"], input_hex=c["input"],
                        how="python3 %s/lib/run.py --replay %s <this file>" % (VERIF, pid), stdout=c["stdout"], stderr=c["stderr"], build=oresults[i]["cmd"]))
                    violations.append(f"VIOLATION property={pid} replay={rp}")
                    found = True
                    break
        if not found:
            r, hard = nff[0]
            rp = write_replay(pid, "proof-" + r["name"], dict(property=pid, kind="failed obligation", proof=r["name"], command=hard.get("cmd"),
                failed=[dict(obligation=f["property"], description=f["description"], at=f["loc"], counterexample=trim_trace(f.get("trace"))) for f in hard["fails"]],
                all=[dict(proof=x["name"], failed=[f["property"] for f in h["fails"]]) for x, h in nff]))
            violations.append(f"VIOLATION property={pid} replay={rp} no-failing-input-found")
    for x, h in nff:
        print(f"[{pid}] proof {x['name']}: failed obligation(s): " + "; ".join(f"{f['property']} ({f['description']}) at {f['loc']}" for f in h["fails"][:4]))
    for u in undecided:
        print(f"[{pid}] proof {u[0]}: not established on this tree ({u[1]}): {u[2]}")
    for o in oresults:
        if o["status"] == "error": print(f"[{pid}] oracle {o['name']} could not run: {o['detail'][-600:]}")
    # evidence
    bounded = [r["name"] for r in presults if r["status"] == "proved" and next(d for d in spec["PROOFS"] if d["name"] == r["name"]).get("bounded")]
    proved = [r for r in presults if r["status"] == "proved" and r["name"] not in bounded]
    pd = {d["name"]: d for d in spec.get("PROOFS", [])}
    classes = {}
    for r in proved:
        for k, v in r["classes"].items(): classes[k] = classes.get(k, 0) + v
    cov = dict(
        obligations=sum(r.get("n", 0) for r in presults if r["name"] not in bounded),
        discharged=sum(r.get("n", 0) for r in proved),
        checker_cmd=(proved[0]["cmd"] if proved else (presults[0].get("cmd", "") if presults else "none")),
        trusted_base=list(spec.get("TRUSTED", [])),
        functions_under_contract=sorted({f for r in proved for f in pd[r["name"]].get("functions", [pd[r["name"]].get("enforce")]) if f}),
        proofs=[dict(name=r["name"], status=r["status"], obligations=r.get("n", 0), backend="cbmc " + pd[r["name"]].get("solver", "sat (MiniSat2)"), solver_s=round(r.get("solver_s", 0), 2),
                     loops="inductive loop contracts" if pd[r["name"]].get("loops") else ("fully unwound, unwinding assertions discharged" if pd[r["name"]].get("unwind") else "loop-free"),
                     bounded=pd[r["name"]].get("bounded")) for r in presults],
        obligation_classes=classes,
        solver_s=round(sum(r.get("solver_s", 0) for r in presults), 2),
        bounded_only=[dict(name=n, bound=pd[n]["bounded"]) for n in bounded],
        undecided=[dict(proof=u[0], why=u[1], note=u[2]) for u in undecided],
        evaluations=sum(o.get("evaluations", 0) for o in oresults),
        distinct_nontrivial=sum(o.get("distinct", 0) for o in oresults),
        rule=spec.get("RULE", "random byte strings drive the structured generator of the oracle; a case is non-trivial when it reaches the comparison with a non-degenerate input; distinct = distinct consumed input (hash)"),
        samples=[s for o in oresults for s in o.get("samples", [])][:6] or ["(none)"],
        oracle_bounded=True,
    )
    level = spec.get("LEVEL", "proof" if spec.get("PROOFS") else "exploration")
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=list(spec.get("ASSUMPTIONS", [])) + list(spec.get("TRUSTED", [])),
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    json.dump(ev, open(f"{VERIF}/evidence/{pid}.json", "w"), indent=1)
    for o, k in known: print(f"KNOWN-FINDING: property={pid} {k[1]}")
    print(f"[{pid}] {tier}: {len(proved)}/{len(presults)} proofs ({cov['discharged']}/{cov['obligations']} obligations), {len(bounded)} bounded; oracle {cov['evaluations']} runs, {cov['distinct_nontrivial']} distinct non-trivial; {ev['wall_s']}s")
    for v in violations: print(v)
    return 1 if violations else 0

def replay(pid, path):
    spec, cdir = load_spec(pid)
    j = json.load(open(path))
    if j.get("kind") != "failing input":
        print(json.dumps(j, indent=1)); return 0
    work = tempfile.mkdtemp(prefix=f"vp-{pid}-")
    try:
        for i, o in enumerate(spec["ORACLES"]):
            if o.get("name", f"oracle{i}") != j["oracle"]: continue
            exe = work + "/x"
            rc, out, e, to = sh(oracle_cmd(o, cdir, exe), 300)
            if rc: print(out + e); return 2
            open(work + "/in", "wb").write(bytes.fromhex(j["input_hex"]))
            rc, out, e, to = sh([exe, f"--replay={work}/in"], 200, cwd=work)
            print(out + e)
            return 1 if rc else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return 2

if __name__ == "__main__":
    sys.exit(main())

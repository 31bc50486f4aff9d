#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's current source.

Static analysis only: scenario clients are compiled to LLVM IR together with the headers and
interpreted abstractly by build/vpai; structural rules work on the IR, the syntax tree or on
whether witness translation units compile.  Nothing from /repo is executed."""
import json, os, re, subprocess, sys, time, shutil, tempfile, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "rules"))
sys.path.insert(0, HERE)
import catalog

MEM = {"memory", "arith", "abort"}
UNI = {"uninit"}

class Broken(Exception):
    pass

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)

def ensure_engine():
    exe = os.path.join(HERE, "build", "vpai")
    src = [os.path.join(HERE, "engine", f) for f in os.listdir(os.path.join(HERE, "engine")) if f.endswith((".h", ".cpp"))]
    if not os.path.exists(exe) or any(os.path.getmtime(s) > os.path.getmtime(exe) for s in src):
        r = run(["sh", os.path.join(HERE, "engine", "build.sh")])
        if r.returncode:
            raise Broken("the analyser does not build: " + r.stderr[-2000:])
    return exe

def SOURCE():
    d = os.path.join(REPO, "src")
    return "".join(open(os.path.join(d, f), errors="replace").read() for f in sorted(os.listdir(d)) if f.endswith(".hpp"))

def scenario_names(path):
    txt = open(path).read()
    return re.findall(r"^SCN\s+((?:scn|thr)_C\d\d_\w+)\s*\(", txt, re.M)

def reach_tags(path, fn):
    return []

BLACK = set()      # scenario files analysed without looking at private fields
def compile_ir(src, out):
    env = dict(os.environ, VERIF_REPO=REPO, VERIF_HERE=HERE)
    env.pop("VP_DEFS", None)
    r = run(["sh", os.path.join(HERE, "engine", "mkir.sh"), src, out], env=env)
    if r.returncode:     # private members may have been renamed: fall back to what the public interface shows
        r2 = run(["sh", os.path.join(HERE, "engine", "mkir.sh"), src, out], env=dict(env, VP_DEFS="-DVP_BLACK"))
        if r2.returncode == 0:
            BLACK.add(os.path.basename(src))
            return
        r = r2
        raise Broken("scenario file %s does not compile against the current headers:\n%s" % (os.path.basename(src), r.stderr[-3000:]))

def run_scenarios(pid, tier, work):
    """returns (results, alarms) of the abstract interpretation of all scenarios of a property"""
    exe = ensure_engine()
    conf = catalog.CHECKS[pid]
    files = conf.get("files", [])
    sel = []          # (file, scenario, kinds)
    for f in files:
        p = os.path.join(HERE, "scenarios", f)
        for n in scenario_names(p):
            m = re.match(r"(scn|thr)_(C\d\d)_", n)
            if m.group(1) == "thr" and tier != "thorough":
                continue
            if tier != "thorough" and conf.get("skip") and re.match(conf["skip"], n):
                continue
            if m.group(2) == pid or conf.get("all_scenarios"):
                sel.append((f, n))
    if not sel and files:
        raise Broken("no scenario for " + pid)
    bc = {}
    need = sorted({f for f, _ in sel})
    with cf.ThreadPoolExecutor(8) as ex:
        futs = {f: ex.submit(compile_ir, os.path.join(HERE, "scenarios", f), os.path.join(work, f + ".bc")) for f in need}
        for f, fu in futs.items():
            fu.result()
            bc[f] = os.path.join(work, f + ".bc")
    budget = conf.get("budget", {}).get(tier, 600 if tier == "quick" else 780)
    ign = []          # alarms that do not end the analysis early
    for k in load_known():
        if k["property"] == pid:
            ign += ["--ignore", k.get("msg", "?")]
    for pre, k in catalog.UNDECIDED:
        ign += ["--ignore", k + "|"]
    kinds = conf.get("kinds")
    if kinds:
        ign += sum([["--ignore", k + "|"] for k in ("assert", "memory", "arith", "abort", "leak", "uninit", "nonterm", "heap") if k not in kinds], [])
    found = []
    def one(fn):
        f, n = fn
        if found and time.time() - found[0] > 60:
            return {"entry": n, "file": f, "incomplete": "not analysed after a violation was found", "alarms": [], "counts": {}, "functions": [], "reached": [], "seconds": 0}
        of = os.path.join(work, n + ".out")
        with open(of, "w") as o, open(of + ".err", "w") as e:
            pr = subprocess.Popen([exe, bc[f], n, "--budget", str(budget), "--grace", "30"] + ign, stdout=o, stderr=e)
            while True:
                try:
                    pr.wait(2)
                    break
                except subprocess.TimeoutExpired:
                    if found and time.time() - found[0] > 60:    # a violation is known: the rest is only looked at briefly
                        pr.kill()
        try:
            d = json.loads(open(of).read())
        except Exception:
            if f in BLACK and pr.returncode == 3:     # the scenario needs private fields which are not there any more
                return {"entry": n, "file": f, "incomplete": "", "alarms": [], "counts": {}, "functions": [], "reached": [], "seconds": 0}
            return {"entry": n, "file": f, "incomplete": "analyser stopped (%d): %s" % (pr.returncode, open(of + ".err").read()[-500:]), "alarms": [], "counts": {}, "functions": [], "reached": [], "seconds": 0}
        d["file"] = f
        for pre, msg in conf.get("only", []):     # a scenario shared with another property: what is not about this one is reported there
            if re.match(pre, n):
                mine = [a for a in d["alarms"] if re.search(msg, a["msg"])]
                if len(mine) < len(d["alarms"]):
                    d["alarms"], d["incomplete"], d["elsewhere"] = mine, "", True
        und = {k for pre, k in catalog.UNDECIDED if n.startswith(pre)}
        if any(a["kind"] not in und and not (kinds and a["kind"] not in kinds) and not any(match_known(k, pid, a) for k in load_known()) for a in d["alarms"]):
            found.append(time.time())
        return d
    heavy = conf.get("heavy", [])
    sel.sort(key=lambda x: (0 if any(h in x[1] for h in heavy) else 1))
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, sel))
    return res

def load_known():
    p = os.path.join(HERE, "known-findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])

def match_known(k, pid, a):
    if k.get("status") == "fixed" or k["property"] != pid:
        return False
    for key in ("kind", "msg", "function", "file"):
        if key in k and k[key] not in str(a.get(key, "")):
            return False
    return True

def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    conf = catalog.CHECKS[pid]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "build"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="run.", dir=os.path.join(HERE, "build"))
    alarms, cover, broken, notes = [], {}, [], []
    try:
        try:
            if conf.get("files"):
                res = run_scenarios(pid, tier, work)
                kinds = conf.get("kinds")
                counts, funcs, scen = {}, set(), []
                for d in res:
                    for k, v in d["counts"].items():
                        counts[k] = max(counts.get(k, 0), v) if k == "max pending states" else counts.get(k, 0) + v
                    funcs |= set(d["functions"])
                    ign = {k for pre, k in catalog.UNDECIDED if d["entry"].startswith(pre)}
                    d["alarms"] = [a for a in d["alarms"] if a["kind"] not in ign]
                    mine = [a for a in d["alarms"] if kinds is None or a["kind"] in kinds]
                    for a in mine:
                        a["scenario"] = d["entry"]
                        alarms.append(a)
                    scen.append(dict({"scenario": d["entry"], "seconds": round(d["seconds"], 2), "alarms": len(mine), "states joined at merge points": d["counts"].get("merge arrivals", 0), "incomplete": d["incomplete"]}, **({"not decided here": sorted(ign)} if ign else {})))
                    d["new"] = [a for a in d["alarms"] if not any(match_known(k, pid, a) or (kinds and a["kind"] not in kinds) for k in load_known())]
                    if d["incomplete"] and not d["new"]:
                        broken.append("%s: %s" % (d["entry"], d["incomplete"]))
                    src = open(os.path.join(HERE, "scenarios", d["file"])).read()
                    if not d["incomplete"] and not d["new"] and not d.get("elsewhere") and d["file"] not in BLACK:
                        for want in catalog.REACH.get(d["entry"], conf.get("reach", {}).get(d["entry"], [])):
                            if want not in d["reached"]:
                                broken.append("%s: the part '%s' of the scenario is never reached" % (d["entry"], want))
                rf = sorted(f for f in funcs)
                cover["abstract interpretation"] = {"scenarios": scen, "counts": counts, "functions analysed": len(rf), "files analysed through the public interface only": sorted(BLACK), "function list": rf[:400]}
                for must in conf.get("must_analyse", []):
                    name = re.split(r"[<(]", must)[0].split("::")
                    name = name[-1] or name[-2]       # a function that was renamed or merged into its callers is no anchor any more
                    if not any(must in f for f in rf) and not alarms and not BLACK and re.search(r"\b" + re.escape(name.lstrip("~")) + r"\b", SOURCE()):
                        broken.append("anchor %s was not reached by the analysis" % must)
            for rule in conf.get("rules", []):
                ensure_engine()
                mod, fn = rule.split(".")
                m = __import__(mod)
                r = getattr(m, fn)(REPO, work, tier, pid)
                alarms += r["alarms"]
                broken += r.get("broken", [])
                cover[rule] = r["coverage"]
        except Broken as e:
            broken.append(str(e))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    # classify
    known, viol = [], []
    kf = load_known()
    for a in alarms:
        k = next((k for k in kf if match_known(k, pid, a)), None)
        (known if k else viol).append((a, k))
    report = os.path.join(HERE, "evidence", pid + ".report.json")
    json.dump({"property": pid, "violations": [a for a, _ in viol], "known": [dict(a, finding=k["id"]) for a, k in known], "broken": broken}, open(report, "w"), indent=1)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "wall_s": round(time.time() - t0, 2), "violations": len(viol),
          "assumptions": conf.get("assumptions", []) + catalog.ASSUME,
          "coverage": dict(cover, explanation=conf["explain"])}
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    for kid in sorted({k["id"] for _, k in known}):
        k = next(x for x in kf if x["id"] == kid)
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if viol:
        seen = set()
        for a, _ in viol[:40]:
            key = (a.get("file"), a.get("line"), a.get("msg"))
            if key in seen:
                continue
            seen.add(key)
            print("%s:%s: %s [%s] in %s (%s)" % (a.get("file"), a.get("line"), a.get("msg"), a.get("kind"), a.get("function"), a.get("scenario", a.get("rule", ""))))
            for s in a.get("stack", [])[:8]:
                print("    " + s)
        for b in broken[:10]:
            print("NOTE: " + b)
        print("VIOLATION property=%s replay=%s" % (pid, report))
        return 1
    if broken:
        for b in broken[:20]:
            print("ANALYSIS-BROKEN: " + b)
        return 2
    print("OK property=%s (%s)" % (pid, conf["explain"][:100]))
    return 0

sys.exit(main())

"""Effect rules over the call graph (C17 queries, C18 heap/I-O/exceptions, C19 hidden state)."""
import os, re, json
from common import *

MATH = {"sqrt","exp","exp2","log","log2","log10","log1p","expm1","pow","fabs","floor","ceil","round","trunc","rint","nearbyint","lround","llround","lrint","fmod","fmin","fmax","fma",
        "sin","cos","tan","sinh","cosh","tanh","asin","acos","atan","atan2","cbrt","hypot","ldexp","frexp","modf","logb","ilogb","copysign","abs","labs","llabs","erf","remainder","isnan","isinf","isfinite"}
MATH |= {m + "f" for m in MATH} | {m + "l" for m in MATH}
PURE = MATH | {"memcpy","memmove","memset","memcmp","bcmp","memchr","strlen","__assert_fail","abort","__clang_call_terminate"}
RUNTIME = {"__cxa_begin_catch","__cxa_end_catch","__cxa_rethrow","__dynamic_cast","std::terminate()","__cxa_pure_virtual"}
HEAP = re.compile(r"^(operator (new|delete)|std::__throw_|__cxa_(bad|throw|allocate|free)|__cxa_(begin|end)_catch|__cxa_rethrow|malloc|free|calloc|realloc)")
FIXED = {"bloom_filter.hpp","cuckoo_filter.hpp","reservoir_sampling.hpp","chained_reservoir.hpp","ltc.hpp","mc_nn.hpp","naive_bayes.hpp","perceptron.hpp","metrics.hpp","hoeffding_tree.hpp","mondrian.hpp","mondrian_coarse.hpp","utils.hpp"}
RANDOM = re.compile(r"^use_\w+::(\w+::)?(random|rand_uniform|rnd)\(")
# the operations of the coarse forest that are meant for printing
PRINTS = {"print","printy","scory","tree_printy","node_csv","unravel","child_of","tree_dd","tree_checker"}

def module(repo, work):
    src = os.path.join(work, "all.cpp")
    with open(src, "w") as f:
        for u in uses():
            f.write('#include "%s"\n' % os.path.join(HERE, u))
    b0, b1 = os.path.join(work, "all.0.bc"), os.path.join(work, "all.bc")
    r = run([CLANG, "-std=c++17", "-O1", "-Xclang", "-disable-llvm-passes", "-g", "-w", "-I" + os.path.join(repo, "src"), "-emit-llvm", "-c", src, "-o", b0])
    if r.returncode:
        return None, "the operations do not compile against the current headers: " + str(first_error(repo, r.stderr))
    r = run([OPT, "-passes=mem2reg", b0, "-o", b1])
    if r.returncode:
        return None, r.stderr[-500:]
    r = run([os.path.join(os.path.dirname(HERE), "build", "effects"), b1])
    if r.returncode:
        return None, "effect analysis failed: " + r.stderr[-500:]
    d = json.loads(r.stdout)
    names = set(headers(repo))
    for f in d["functions"]:
        f["src"] = os.path.basename(f.get("file") or "")
        f["own"] = f["src"] in names and os.path.dirname(os.path.abspath(f["file"])).endswith("src") or f["src"] in names
    return d, None

def reach(F, starts, stop=lambda f: False):
    seen, st = set(), list(starts)
    while st:
        n = st.pop()
        if n in seen or n not in F or stop(F[n]):
            continue
        seen.add(n)
        st += F[n]["calls"]
    return seen

def path_of(f):
    return "src/" + os.path.basename(f or "?")

def short(p):
    return re.sub(r"<[^<>]*(<[^<>]*>[^<>]*)*>", "", p)[:120]

def base(p):     # unqualified name of a function
    p = re.sub(r"<[^<>]*(<[^<>]*(<[^<>]*>[^<>]*)*>[^<>]*)*>", "", p)
    p = p.split("(")[0]
    return p.split("::")[-1].split(" ")[-1]

def cover(d, F, what, **kw):
    return dict({"functions in module": len(F), "call sites": d["callsites"], "stores": d["stores"], "rounds to the fixpoint": d["rounds"], "rule": what}, **kw)

def queries(repo, work, tier, pid):
    d, e = module(repo, work)
    if e:
        return {"alarms": [], "broken": [e], "coverage": {}}
    F = {f["name"]: f for f in d["functions"]}
    alarms, qs = [], sorted(n for n in F if n.startswith("Q_"))
    for q in qs:
        for w in F[q]["writes"]:
            if w["root"] in ("P0", "P0*") or (w["root"].startswith("G:")):
                where = "the model" if w["root"][0] == "P" else "the shared object " + w["root"][2:]
                alarms.append({"kind": "effect", "rule": "queries", "file": path_of(w["file"]), "line": w["line"], "function": short(w["fn"]), "msg": "the query %s writes to %s here" % (q[2:], where)})
        for n in reach(F, [q]):
            for x in F[n]["external"]:
                if RANDOM.match(x["pretty"]):
                    alarms.append({"kind": "effect", "rule": "queries", "file": path_of(x["file"]), "line": x["line"], "function": short(F[n]["pretty"]), "msg": "the query %s consumes random numbers of the model here" % q[2:]})
    broken = [] if len(qs) >= 30 else ["only %d queries found" % len(qs)]
    for q in qs:
        if len(reach(F, [q])) < 2 and "ptr" not in q:
            broken.append("the query %s reaches no function" % q)
    return {"alarms": alarms, "broken": broken, "coverage": cover(d, F, "no store whose address derives from the instance (or a global) is reachable from a query, and no call of the random function", queries=qs, **{"functions reachable from queries": len(reach(F, qs))})}

def embedded(repo, work, tier, pid):
    d, e = module(repo, work)
    if e:
        return {"alarms": [], "broken": [e], "coverage": {}}
    F = {f["name"]: f for f in d["functions"]}
    own = [n for n, f in F.items() if f["own"] and f["src"] in FIXED]
    alarms, n = [], 0
    printing = lambda f: f["src"] == "mondrian_coarse.hpp" and base(f["pretty"]) in PRINTS
    quiet = reach(F, [x for x in F if x.startswith(("O_", "Q_", "P_")) and not x.startswith(("O_mu", "Q_mu"))] + [x for x in own if F[x]["src"] != "mondrian_coarse.hpp"], printing)
    for x in sorted(quiet | set(reach(F, own))):
        f = F[x]
        io_ok = x not in quiet     # only reachable through an operation meant for printing
        for c in f["external"]:
            n += 1
            p = c["pretty"]
            if p in PURE or p.startswith("use_") or p == "*indirect" or p == "std::terminate()" or p in ("__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort", "__cxa_begin_catch"):
                continue
            if HEAP.match(p):
                if "free" in p and False:
                    continue
                alarms.append({"kind": "effect", "rule": "embedded", "file": path_of(c["file"]), "line": c["line"], "function": short(f["pretty"]), "msg": "a fixed-memory structure uses the heap or an exception here (%s)" % short(p)})
            elif not io_ok:
                alarms.append({"kind": "effect", "rule": "embedded", "file": path_of(c["file"]), "line": c["line"], "function": short(f["pretty"]), "msg": "a fixed-memory structure performs input, output or another system interaction here (%s)" % short(p)})
    broken = [] if len(own) > 150 else ["only %d functions of the fixed-memory headers found" % len(own)]
    missing = FIXED - {F[x]["src"] for x in own} - {"mondrian_coarse.hpp"}
    if missing:
        broken.append("no function found of " + ", ".join(sorted(missing)))
    return {"alarms": alarms, "broken": broken, "coverage": cover(d, F, "every external function reachable from a function of the fixed-memory headers is mathematics, a memory primitive, assert or a user function; printing only inside the coarse forest's printing operations", **{"functions of the fixed-memory headers": len(own), "functions reachable": len(quiet), "external call targets examined": n})}

def hidden(repo, work, tier, pid):
    d, e = module(repo, work)
    if e:
        return {"alarms": [], "broken": [e], "coverage": {}}
    F = {f["name"]: f for f in d["functions"]}
    own = [n for n, f in F.items() if f["own"]]
    alarms, n, g0 = [], 0, 0
    for x in sorted(reach(F, own)):
        f = F[x]
        for g in f["globals"]:
            g0 += 1
            if g["const"] or g["pretty"].startswith(("std::cout", "std::cerr", "guard variable for", "vtable for", "typeinfo")):
                continue
            if "ReservoirSamplingMetrics" in g["pretty"] and "ReservoirSamplingMetrics" in f["pretty"]:
                continue
            alarms.append({"kind": "effect", "rule": "hidden", "file": path_of(g["file"]), "line": g["line"], "function": short(f["pretty"]), "msg": "state shared between instances is used here (%s)" % short(g["pretty"])})
        for p in f["ptrtoint"]:
            if f["own"]:
                alarms.append({"kind": "effect", "rule": "hidden", "file": path_of(p["file"]), "line": p["line"], "function": short(f["pretty"]), "msg": "an address is turned into a number here: the result depends on where the instance lives"})
        for c in f["external"]:
            n += 1
            p = c["pretty"]
            if p in PURE or p.startswith("use_") or p in RUNTIME or p == "*indirect" or HEAP.match(p) or p.startswith(("std::ostream", "std::basic_ostream", "__cxa_guard", "std::type_info", "std::ios_base", "std::basic_ios")) or "basic_ostream" in p:
                continue
            alarms.append({"kind": "effect", "rule": "hidden", "file": path_of(c["file"]), "line": c["line"], "function": short(f["pretty"]), "msg": "the outcome depends on something other than the instance, its arguments and the user's functions (%s)" % short(p)})
    broken = [] if len(own) > 150 else ["only %d functions found" % len(own)]
    return {"alarms": alarms, "broken": broken, "coverage": cover(d, F, "no reachable function touches a mutable global or static, converts an address to a number, or calls an external source of state", **{"functions of the headers": len(own), "references to globals examined": g0, "external call targets examined": n})}

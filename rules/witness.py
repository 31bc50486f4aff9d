"""Compile and link witnesses (C22) and size witnesses (C23): a violating tree makes one of them fail to build."""
import os, random, itertools
from common import *
STDS = ["c++11", "c++14", "c++17", "c++20"]

def tu(work, name, lines):
    p = os.path.join(work, name + ".cpp")
    open(p, "w").write("\n".join(lines) + "\n")
    return p

def include_all(repo, work, tier, pid):
    H = headers(repo)
    inc = lambda h: '#include "%s"' % h
    jobs = []       # (what, compiler, std, file, extra, link)
    alln = tu(work, "one", [])
    for h in H:
        n = h.replace(".", "_")
        alone = tu(work, "alone_" + n, [inc(h)])
        twice = tu(work, "twice_" + n, [inc(h), inc(h)])
        after = tu(work, "after_" + n, ["#include <bits/stdc++.h>", inc(h)])
        before = tu(work, "before_" + n, [inc(h), "#include <bits/stdc++.h>"])
        for c in (GPP, CLANG):
            for s in STDS:
                jobs.append(("%s on its own" % h, c, s, alone))
            jobs.append(("%s included twice" % h, c, "c++11", twice))
            jobs.append(("%s after the standard headers" % h, c, "c++17", after))
            jobs.append(("%s before the standard headers" % h, c, "c++17", before))
    for a, b in itertools.permutations(H, 2):
        f = tu(work, "pair_%s_%s" % (a[:-4], b[:-4]), [inc(a), inc(b)])
        for c in ((GPP, CLANG) if tier == "thorough" else (GPP,)):
            jobs.append(("%s followed by %s" % (a, b), c, "c++11", f))
    rnd = random.Random(int(os.environ.get("VERIF_SEED", "1") or 1))
    orders = [H, H[::-1]]
    for _ in range(40 if tier == "thorough" else 8):
        o = H[:]
        rnd.shuffle(o)
        orders.append(o)
    for i, o in enumerate(orders):
        f = tu(work, "order_%d" % i, [inc(h) for h in o])
        for c in (GPP, CLANG):
            for s in ("c++11", "c++17", "c++20"):
                jobs.append(("all headers in the order " + ", ".join(o), c, s, f))
    # every member of every class template, in every language level
    for u in uses():
        f = tu(work, "inst_" + u[4:-4], ['#include "%s"' % os.path.join(HERE, u)])
        for c in (GPP, CLANG):
            for s in STDS:
                jobs.append(("all operations of %s instantiated" % u[4:], c, s, f))
    def one(j):
        what, c, s, f = j
        r = run([c, "-std=" + s, "-w", "-fsyntax-only", "-I" + os.path.join(repo, "src"), f])
        return (what, c, s, first_error(repo, r.stderr)) if r.returncode else None
    bad = [b for b in pmap(one, jobs) if b]
    alarms, seen = [], set()
    for what, c, s, (fi, ln, msg) in bad:
        if (fi, ln) in seen:
            continue
        seen.add((fi, ln))
        alarms.append({"kind": "build", "rule": "include_all", "file": "src/" + os.path.basename(fi), "line": ln, "function": os.path.basename(fi), "msg": "%s does not compile with %s -std=%s: %s" % (what, os.path.basename(c), s, msg)})
    # linking: three translation units that include everything, no optimisation so that every use of a static member needs its definition
    links = 0
    if not alarms:
        a = tu(work, "link_a", ["#define VP_DEFINE_USER"] + ['#include "%s"' % os.path.join(HERE, u) for u in uses()] + ["int other(); int third(); int main(){ return other()+third(); }"])
        b = tu(work, "link_b", [inc(h) for h in H] + ["int other(){ return 0; }"])
        q = tu(work, "link_c", [inc(h) for h in H[::-1]] + ["int third(){ NoMetrics m; m.update(1,2); ReservoirSamplingMetrics r; ErrorMetrics<false> e; e.update(1,2); return (int)(m.score()+r.score()+e.score()); }"])
        def link(j):
            c, s = j
            o = os.path.join(work, "link_%s_%s" % (os.path.basename(c)[:3], s))
            r = run([c, "-std=" + s, "-O0", "-w", "-I" + os.path.join(repo, "src"), a, b, q, "-o", o])
            if os.path.exists(o):
                os.unlink(o)
            return (c, s, first_error(repo, r.stderr)) if r.returncode else None
        lj = [(c, s) for c in (GPP, CLANG) for s in (("c++11", "c++14", "c++17", "c++20") if tier == "thorough" else ("c++11", "c++17"))]
        links = len(lj)
        for c, s, (fi, ln, msg) in [x for x in pmap(link, lj) if x]:
            alarms.append({"kind": "build", "rule": "include_all", "file": "src/" + os.path.basename(fi), "line": ln, "function": "link", "msg": "a program of three translation units that include the headers does not link with %s -std=%s: %s" % (os.path.basename(c), s, msg)})
    return {"alarms": alarms, "broken": [] if len(H) >= 10 else ["headers not found"], "coverage": {"headers": H, "translation units compiled": len(jobs), "programs linked": links, "language levels": STDS, "compilers": ["g++", "clang++"], "rule": "every witness translation unit compiles and every witness program links; none is executed"}}

def sizes(repo, work, tier, pid):
    src = os.path.join(HERE, "sizes.cpp")
    txt = open(src).read()
    n = txt.count("FITS(") + txt.count("static_assert(")
    jobs = [(c, s) for c in (GPP, CLANG) for s in ("c++11", "c++17")]
    alarms, broken, seen = [], [], set()
    for (c, s), r in zip(jobs, pmap(lambda j: run([j[0], "-std=" + j[1], "-w", "-fsyntax-only", "-fno-access-control", "-I" + os.path.join(repo, "src"), src]), jobs)):
        if r.returncode:
            sa = re.findall(r"(?:static assertion failed|static_assert failed)[^\n\"]*?[:\s]*\"?([^\n\"]*)", r.stderr)
            if sa:
                for m in sa:
                    if m not in seen:
                        seen.add(m)
                        where = m.split(":")[0].strip()
                        alarms.append({"kind": "size", "rule": "sizes", "file": "src/" + (where if where.endswith(".hpp") else "?"), "line": 0, "function": where, "msg": "size witness fails: " + m})
            else:
                broken.append("size witnesses do not compile: " + str(first_error(repo, r.stderr)))
    return {"alarms": alarms, "broken": broken, "coverage": {"size obligations in the witness (each instantiated for several shapes)": n, "compilations": len(jobs), "rule": "static assertions on sizeof and array extents hold for every instantiated shape"}}

"""Shared by the structural rules: compiling witnesses against the current headers."""
import os, subprocess, re, json
import concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
CLANG, GPP, OPT = "/usr/bin/clang++-18", "g++", "/usr/bin/opt-18"

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)

def headers(repo):
    return sorted(f for f in os.listdir(os.path.join(repo, "src")) if f.endswith((".hpp", ".h")))

def uses():
    return sorted(f for f in os.listdir(HERE) if f.startswith("use_"))

def first_error(repo, txt):
    """file, line, message of the first error, preferring a place in /repo/src"""
    best = None
    for l in txt.splitlines():
        m = re.match(r"(.*?):(\d+):(?:\d+:)? (?:fatal )?error: (.*)", l)
        if m:
            t = (m.group(1), int(m.group(2)), m.group(3))
            if best is None:
                best = t
            if os.path.abspath(m.group(1)).startswith(os.path.join(repo, "src")):
                return t
    if best:
        return best
    m = re.search(r"(multiple definition of .*|undefined reference to .*|duplicate symbol.*)", txt)
    return ("link", 0, m.group(1) if m else txt.strip()[-300:])

def pmap(f, xs, n=8):
    with cf.ThreadPoolExecutor(n) as ex:
        return list(ex.map(f, xs))

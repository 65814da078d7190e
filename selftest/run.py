#!/usr/bin/env python3
"""Self-test: apply textual edits to a scratch copy of the sources and compare what the checks say with what is expected.
usage: run.py [-j N] [name-regex] ; edits are in edits_*.py: (name, property, expect 'catch'|'quiet', [(file, old, new)...])"""
import sys, os, re, subprocess, shutil, glob, tempfile, importlib.util
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.abspath(__file__)); REPO = "/repo"
pat = re.compile(sys.argv[1] if len(sys.argv) > 1 else ".")
edits = []
for f in sorted(glob.glob(H + "/edits_*.py")):
    sp = importlib.util.spec_from_file_location("e", f); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    edits += m.EDITS
def one(e):
    name, prop, exp, subs = e
    d = tempfile.mkdtemp(prefix="mjsst.")
    try:
        shutil.copytree(REPO + "/src", d + "/src")
        for f in glob.glob(REPO + "/*.h") + glob.glob(REPO + "/*.c"): shutil.copy(f, d)
        for f, old, new in subs:
            p = d + "/src/" + f; s = open(p).read()
            if s.count(old) < 1: return name, prop, exp, "EDIT-FAILS(%s)" % f, old[:60]
            s = s.replace(old, new, 1) if not isinstance(new, tuple) else s.replace(old, new[0])
            open(p, "w").write(s)
        r = subprocess.run([sys.executable, H + "/../check.py", prop], capture_output=True, text=True,
                           env=dict(os.environ, MJS_REPO=d, MJS_OUT=d + "/o"))
        got = {0: "quiet", 1: "catch" if "VIOLATION property=" in r.stdout else "broken"}.get(r.returncode, "broken")
        msg = "; ".join(re.findall(r"\[(.*?)\]$", r.stdout, re.M)) if got == "catch" else r.stdout[-1500:] + r.stderr[-500:] if got == "broken" else ""
        return name, prop, exp, got, msg
    finally: shutil.rmtree(d, ignore_errors=True)
sel = [e for e in edits if pat.search(e[0]) or pat.fullmatch(e[1])]
bad = 0
with ThreadPoolExecutor(8) as ex:
    for n, p, e, g, msg in ex.map(one, sel):
        if g != e: bad += 1
        print("%-4s %-34s %s expect=%s got=%s %s" % ("ok" if g == e else "BAD", n, p, e, g, msg[:300] if g == e else msg[:1500]))
print(len(sel), "edits,", bad, "unexpected")

#!/usr/bin/env python3
"""mkpatch.py ID FILE OLD NEW [nth]: writes seeded/ID/patch.diff, the replacement of the nth (1-based; default the only)
occurrence of OLD by NEW in /repo/FILE.  Repeated calls with '+' before ID add to the patch.  /repo itself is left alone."""
import os, re, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def unesc(s): return s.encode().decode("unicode_escape")
def main():
    sid, f, old, new = sys.argv[1:5]
    old, new = unesc(old), unesc(new)
    nth = int(sys.argv[5]) if len(sys.argv) > 5 else 0
    add = sid.startswith("+"); sid = sid.lstrip("+")
    txt = open(f"/repo/{f}").read()
    n = txt.count(old)
    if n == 0 or (n > 1 and not nth): sys.exit(f"{n} occurrences of {old!r}")
    pos = -1
    for _ in range(nth or 1): pos = txt.index(old, pos + 1)
    res = txt[:pos] + new + txt[pos+len(old):]
    with tempfile.TemporaryDirectory() as t:
        os.makedirs(f"{t}/a/{os.path.dirname(f)}"); os.makedirs(f"{t}/b/{os.path.dirname(f)}")
        open(f"{t}/a/{f}", "w").write(txt); open(f"{t}/b/{f}", "w").write(res)
        d = subprocess.run(["git", "diff", "--no-index", "--no-prefix", f"a/{f}", f"b/{f}"], cwd=t, capture_output=True, text=True).stdout
    d = re.sub(r"^diff --git .*$", f"diff --git a/{f} b/{f}", d, flags=re.M)
    d = re.sub(r"^index .*\n", "", d, flags=re.M)
    open(f"{ROOT}/seeded/{sid}/patch.diff", "a" if add else "w").write(d)
    subprocess.run(["git", "-C", "/repo", "apply", "--check", f"{ROOT}/seeded/{sid}/patch.diff"], check=True)
main()

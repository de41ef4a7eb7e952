#!/opt/venv/bin/python
"""Which planted bugs remove only lines that commits on top of the original repository added?"""
import os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = "bed4a93"
git = lambda *a: subprocess.run(["git", "-C", "/repo", *a], capture_output=True, text=True).stdout
for d in sorted(os.listdir(f"{V}/seeded")):
    f, minus, plus, own = None, 0, 0, 0
    ln = 0
    blame = {}
    for l in open(f"{V}/seeded/{d}/patch.diff"):
        if l.startswith("--- "):
            f = l.split()[1][2:]
            if f not in blame:
                orig = set(git("show", f"{base}:{f}").split("\n"))
                blame[f] = (orig, [x.split()[0].lstrip("^") for x in git("blame", "-s", f).splitlines()])
        elif l.startswith("@@"):
            ln = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-"):
            minus += 1
            if not base.startswith(blame[f][1][ln - 1][:7]):
                own += 1
            ln += 1
        elif l.startswith("+") and not l.startswith("+++"):
            plus += 1
        elif l.startswith(" "):
            ln += 1
    if own or not minus:
        print(f"{d:40} minus {minus} own {own} plus {plus}")

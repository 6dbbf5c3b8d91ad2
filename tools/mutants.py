#!/usr/bin/env python3
"""mutants.py LIST LOG...: merge the results of a mutation run into tools/mutants.tsv (name, file, change, results)."""
import re, sys, os
R = os.path.dirname(os.path.abspath(__file__))
f = R + "/mutants.tsv"
T = {}
if os.path.exists(f):
    for l in open(f):
        n, fi, ch, res = l.rstrip("\n").split("\t")
        T[n] = [fi, ch, dict(x.split(":") for x in res.split())]
def short(a, b):
    a, b = " ".join(a.split()), " ".join(b.split())
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]: i += 1
    j = 0
    while j < min(len(a), len(b)) - i and a[-1 - j] == b[-1 - j]: j += 1
    i = max(0, i - 18); j = max(0, j - 18)
    c = lambda s: (s[:55] + "..." if len(s) > 58 else s)
    return "`%s` -> `%s`" % (c(a[i:len(a) - j]), c(b[i:len(b) - j]))
lst, logs = sys.argv[1], sys.argv[2:]
M = eval(open(lst).read())
for m in M:
    n, e = m[0], m[2]
    t = T.setdefault(n, ["", "", {}])
    t[0] = ", ".join(sorted(set(os.path.basename(x[0]) for x in e)))
    t[1] = short(e[0][1], e[0][2]).replace("\t", " ").replace("|", "\\|")
for g in logs:
    for l in open(g):
        m = re.match(r"MUT (\S+)\s+(\S+)\s+rc=(\d)", l)
        if m and m[1] in T: T[m[1]][2][m[2]] = m[3]
open(f, "w").write("".join("%s\t%s\t%s\t%s\n" % (n, t[0], t[1], " ".join("%s:%s" % x for x in sorted(t[2].items()))) for n, t in sorted(T.items())))

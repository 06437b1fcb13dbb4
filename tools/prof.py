"""Summarise a VERIF_PROFILE file."""
import collections
import json
import sys

d, n, L = collections.Counter(), collections.Counter(), collections.Counter()
for l in open(sys.argv[1]):
    t, m, g, task = json.loads(l)
    d[(m, g)] += t
    n[(m, g)] += 1
    c = [x for x in task if isinstance(x, list)]
    k = (m,) + tuple(x for x in task if isinstance(x, str)) + ((c[-1][0],) if c and c[-1] else tuple(x for x in task if isinstance(x, (int, float)))[:1])
    L[k] += t
print("total", round(sum(d.values())), "groups", len(d))
print([(k, round(v), n[k]) for k, v in d.most_common(10)])
print([(k, round(v)) for k, v in L.most_common(25)])

# merge lcov files: lines of the repository that no workload executed
import collections, os, sys
repo = os.environ.get("VF_REPO", "/repo")
hit = collections.defaultdict(lambda: collections.defaultdict(int))
for p in sys.argv[1:]:
    f = None
    for l in open(p):
        if l.startswith("SF:"):
            f = l[3:].strip()
            f = f if f.startswith(repo + "/") and "/test/" not in f else None
        elif f and l.startswith("DA:"):
            n, c = l[3:].split(",")[:2]
            hit[f][int(n)] += int(c)
for f in sorted(hit):
    miss = sorted(n for n, c in hit[f].items() if not c)
    if miss:
        r, a = [], None
        for n in miss:
            if a is None: a = b = n
            elif n == b + 1: b = n
            else: r.append((a, b)); a = b = n
        r.append((a, b))
        print(f[len(repo) + 1:], "%d of %d:" % (len(miss), len(hit[f])), " ".join("%d" % a if a == b else "%d-%d" % (a, b) for a, b in r))
known = set(hit)
for dp, _, fn in os.walk(repo):
    if "/test" in dp or "/_build" in dp: continue
    for x in fn:
        q = os.path.join(dp, x)
        if q.endswith(".cpp") and q not in known: print("never compiled:", q[len(repo) + 1:])

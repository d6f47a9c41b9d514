"""checks that the edits of all bugs (or those named) match"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seeds, seeds_b
bad = 0
for n, g in seeds.BUGS.items():
    if len(sys.argv) > 1 and n not in sys.argv[1:]: continue
    S = {}
    for e in g['edits']:
        f, a, b = e[0], e[-2], e[-1]
        s = S.get(f) or open('/repo/' + f).read()
        k = 0
        if len(e) == 4:
            if s.count(e[1]) != 1: print(n, 'ANCHOR', s.count(e[1]), repr(e[1])); bad += 1; continue
            k = s.index(e[1])
            if a not in s[k:k+5000]: print(n, 'NO MATCH', repr(a[:90])); bad += 1; continue
        elif s.count(a) != 1: print(n, 'MATCHES', s.count(a), repr(a[:90])); bad += 1; continue
        k = s.index(a, k)
        S[f] = s[:k] + b + s[k+len(a):]
print(bad)

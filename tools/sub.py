"""sub.py <file> <old> <new>: replace exactly one occurrence in /repo/CasimirRio/<file>."""
import sys
p = "/repo/CasimirRio/" + sys.argv[1]
s = open(p, encoding="utf8", newline="").read()
o, n = sys.argv[2].encode().decode("unicode_escape"), sys.argv[3].encode().decode("unicode_escape")
assert s.count(o) == 1, s.count(o)
open(p, "w", encoding="utf8", newline="").write(s.replace(o, n))

"""prints the row index of every column; with the defect, nested ones do not have one entry per two rows"""
import sys
from orcread import File
f = File(sys.argv[1] + "/nested.orc")
s = f.stripes[0]
want = (s.n + f.stride - 1) // f.stride
for c in range(len(f.types)):
    n = len(s.index(c))
    print("column %2d %-7s %d row index entries, %d rows / stride %d = %d  %s" % (c, f.kind(c), n, s.n, f.stride, want, "" if n == want else "<- WRONG"))

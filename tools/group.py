#!/usr/bin/env python3
"""Regroup the harness's event lines into one JSON line per session."""
import sys
def group(src, dst):
    n = ev = 0
    cur = None
    with open(src) as f, open(dst, "w") as o:
        for line in f:
            line = line.strip()
            if not line: continue
            if line.startswith('{"ev":"start"'):
                if cur: o.write("[" + ",".join(cur) + "]\n"); n += 1
                cur = []
            cur.append(line); ev += 1
        if cur: o.write("[" + ",".join(cur) + "]\n"); n += 1
    return n, ev
if __name__ == "__main__":
    print(group(sys.argv[1], sys.argv[2]))

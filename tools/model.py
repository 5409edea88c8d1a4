#!/usr/bin/env python3
"""model.py MODEL [SAMPLE] [deep]: check a bounded model and replay its transitions, by hand (a development aid)"""
import os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "checker"))
import check, common as C
r = check.Run("M" + sys.argv[1], "quick", 1)
r.bin = C.build()
t = time.time()
n = [int(x) for x in sys.argv[2:] if x.isdigit()]
r.model(sys.argv[1], sample=n[0] if n else None, deep="deep" in sys.argv, own=lambda b: True)
print(r.models, r.parts, len(r.violations), round(time.time() - t, 1))

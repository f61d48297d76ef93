#!/usr/bin/env python3
"""dev: run the replay harness of properties directly"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.realpath(__file__)), ".."))
import check
for p in sys.argv[2:]:
    print(p, check.harness(p, 1, "quick", int(sys.argv[1])))

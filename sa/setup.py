#!/usr/bin/env python3
"""builds the fact extractor and warms the fact cache"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from rodsa import facts
from rodsa.prog import Program
p = Program()
print("facts for %d functions from %d translation units" % (len(p.funcs), p.tus))

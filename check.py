#!/usr/bin/env python3
import os, sys, importlib
sys.setrecursionlimit(10000)
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'tools')); sys.path.insert(0, os.path.join(V, 'checks'))
if len(sys.argv) > 2 and sys.argv[2] == 'thorough': os.environ['VERIF_TIER'] = 'thorough'
elif len(sys.argv) > 2: os.environ['VERIF_TIER'] = 'quick'
import symlib
symlib.main(sys.argv[1], importlib.import_module(sys.argv[1]))

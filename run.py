#!/usr/bin/env python3
"""python3 run.py P03 [quick|thorough]; python3 run.py --replay FILE"""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, os.path.join(HERE, 'checks'))
sys.dont_write_bytecode = True
import check

if __name__ == '__main__':
    prop = sys.argv[1]
    mod = importlib.import_module(prop.lower())
    sys.exit(check.run(prop, mod))

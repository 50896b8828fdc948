#!/usr/bin/env python3
"""Entry point of every check: check.py <property id>"""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

if __name__ == "__main__":
    prop = sys.argv[1]
    importlib.import_module("checks." + prop.lower()).main()

#!/usr/bin/env python3
"""Runs the check of one property: check.py C01 [--replay FILE].

VERIF_SEED and VERIF_TIER are taken from the environment.  Everything is built
from the current tree in /repo (LEXI_REPO overrides it for experiments).
Exit 0: the property held on everything explored.  Exit 1 and a VIOLATION line:
it is broken.  Anything else: the check could not be run.
"""
import json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
import engine

if __name__ == '__main__':
    sys.exit(engine.main(sys.argv[1:]))

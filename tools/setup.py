#!/usr/bin/env python3
"""Builds the harness and the Python module from the current tree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(2) as ex:
    list(ex.map(vlib.build, ('harness', 'py')))
print('built')

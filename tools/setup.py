#!/usr/bin/env python3
# Builds the engine, the models and the IR of every harness for the current /repo (all of it is rebuilt by the checks when sources change).
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, props
from concurrent.futures import ThreadPoolExecutor
os.makedirs(vlib.B, exist_ok=True); r = vlib.Repo(); vlib.engine(); vlib.models()
w = sorted({(j.harness, j.variant) for p in props.PROPS.values() for j in p['jobs']})
with ThreadPoolExecutor(8) as ex:
    list(ex.map(lambda x: vlib.module(r, *x), w)); list(ex.map(lambda x: vlib.native(r, x[0], x[1], 'plain'), w))
print('built %d modules' % len(w))

#!/usr/bin/env python3
"""builds the engine and every harness once, so that a check only rebuilds what changed"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "driver"))
import ws
from props import PROPS

ws.layout()
ws.build_engine()
for c in sorted({p["crate"] for p in PROPS.values()}):
    ws.build_sym(c)
    ws.build_nat(c)
    print("built", c, flush=True)

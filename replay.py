#!/usr/bin/env python3
"""replay.py <property> <replay file>: run a recorded counterexample on a native build of /repo's code"""
import os, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "driver"))
import ws
from props import PROPS
with ws.Lock():
    ws.layout()
    os.makedirs(f"{ws.WORK}/log", exist_ok=True)
    b = ws.build_nat(PROPS[sys.argv[1]]["crate"])
    for l in subprocess.run([b, sys.argv[2]], stdout=subprocess.PIPE, text=True).stdout.splitlines():
        if l.startswith("result "):
            for kv in l.split(" ")[2:]:
                k, _, v = kv.partition("=")
                if k in ("panic", "fails"):
                    v = [bytes.fromhex(x).decode(errors="replace") for x in v.split(",") if x]
                print(f"{k} = {v}")

#!/usr/bin/env python3
"""Refreshes engine/prebuilt (see vp/build.py: prebuilt)."""
import glob, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import build as B
os.makedirs(B.PREBUILT, exist_ok=True)
for f in glob.glob(B.PREBUILT + "/*"):
    os.remove(f)
for out, src, cmd in (("SymPass.so", B.ENGINE + "/SymPass.cpp", B.SYMPASS_CMD), ("rt.o", B.ENGINE + "/rt.cpp", B.RT_CMD)):
    tmp = f"/tmp/{out}.{os.getpid()}"
    subprocess.check_call(cmd.format(src=src, out=tmp, z=B.z3_root()), shell=True)
    subprocess.check_call(f"gzip -9nc {tmp} > {B.PREBUILT}/{out}.{B.engine_key(src)}.gz && rm {tmp}", shell=True)
print(os.listdir(B.PREBUILT))

"""Builds the tree under test and the monitors in every configuration the checks use."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from spec import SPEC
for cfg in sorted({r["cfg"] for s in SPEC.values() for r in s["runs"]}):
    vbuild.build_lib(cfg)
    print(cfg, vbuild.build_mon(cfg))

#!/usr/bin/env python3
"""setup_cmd: compiles the TLC module overrides and checks them against their definitions."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
lib.ensure_classes()
r = lib.TLC('F64Test')
print('F64Test:', 'ok' if r.ok else r.out)
sys.exit(0 if r.ok else 2)

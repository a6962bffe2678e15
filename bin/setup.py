#!/usr/bin/env python3
"""Builds every harness once (checks rebuild what changed)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); sys.dont_write_bytecode = True
import registry, simbuild
rc = 0
for p, c in sorted(registry.CHECKS.items()):
    try: c.build(p)
    except simbuild.BuildError as e: print("setup: %s does not build: %s" % (p, str(e)[:2000])); rc = 1
sys.exit(rc)

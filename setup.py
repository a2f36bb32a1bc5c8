#!/usr/bin/env python3
"""Builds the framework once, to see that everything needed is there (checks build again)."""
import sys
import os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
engines = [{"engine": "rt", "profile": "release"}, {"engine": "rt", "profile": "dev"}, {"engine": "rt", "profile": "plain"}, {"engine": "pg", "decl_macro": True}]
check.start_builds(engines)
for name in ("rt-release", "rt-dev", "rt-plain", "pg", "laby", "laby-decl"):
    check.BUILD.wait(name)
print("ok")

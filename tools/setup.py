#!/usr/bin/env python3
"""Sanity check of the tool chain, and a warm-up of the explorer's object. Checks build everything else they need."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build  # noqa: E402

os.makedirs(build.BUILD + "/obj", exist_ok=True)
build.compile_one(os.path.join(build.VERIF, "lib/mc.cc"), build.BASE_FLAGS)
print("ok")

#!/usr/bin/env python3
"""Builds the replay harness and the program under test."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf
os.makedirs(os.path.join(vf.ROOT, "evidence"), exist_ok=True)
print(vf.build_harness())
print(vf.build_cli())

#!/usr/bin/env python3
"""Prebuilds the executor and checks that the tools it needs are there."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
b = build.Builder()
print(b.engine()())

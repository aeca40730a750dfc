"""Builds the harness and the crates once (every check does so again from /repo's current tree)."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
build.cargo_harness()
print("ready")

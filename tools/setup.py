"""Warm the build cache (the checks build again on their own)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vv import build
build.binary()
build.binary(tags=("verif",))
build.binary(race=True)
print("built")

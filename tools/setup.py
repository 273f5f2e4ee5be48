#!/usr/bin/env python3
"""Builds the source parser used by all checks, and warms the dependency build of the search harnesses."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/engine"]
from rs import rsx_bin
print(rsx_bin())

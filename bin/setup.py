#!/usr/bin/env python3
"""setup_cmd: everything the checks use is built from source by the checks themselves; this
builds it once to find out early if that does not work."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import base
print(base.build())
print(base.build_tool())

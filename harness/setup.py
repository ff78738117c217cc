#!/usr/bin/env python3
"""setup_cmd: compile the arithmetic override for TLC.  (Checks do it themselves if it is missing.)"""
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, __file__.rsplit("/", 1)[0])
from common import build_java

print(build_java())

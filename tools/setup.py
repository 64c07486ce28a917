#!/usr/bin/env python3-vt
"""setup_cmd: builds the drivers, the library objects (cached by content) and the Java side of the specifications."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import runner
runner.classes()
print(runner.builder.build())

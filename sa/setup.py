#!/usr/bin/env python3
"""setup: build the MIR driver and extract facts once (checks redo it when /repo changes)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import facts
p = facts.Program()
print("functions extracted:", len(p.vm.fns))

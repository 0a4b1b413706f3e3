"""Compile the Java overrides and check them against their TLA+ definitions."""
import sys

import tlc

sys.dont_write_bytecode = True
tlc.compile_overrides()
r = tlc.run("CycloTest")
print(f"CycloTest: {r['states']} states, no error")

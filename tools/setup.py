"""Build the extension from /repo if stale and load both the real and the symbolic package once."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vsym import harness, runner

env = harness.Env()
print("real package:", env.real.__file__, "encoding:", env.error or "ok")
sys.exit(0 if runner.sanity() else 1)

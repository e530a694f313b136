"""warms the build cache (optional: every check builds what it needs itself)"""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx import harness
harness.prebuild()

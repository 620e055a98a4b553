"""Build everything the checks use, once (they rebuild on their own when /repo changes)."""
import sys
import os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
print(build.all_of(["core", "formal", "gen", "genf"]))
import soc_check
print(soc_check.binaries())

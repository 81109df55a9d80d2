"""setup: nothing to build ahead of time (every check extracts from /repo's current
tree); verifies that the tools the checks need are present."""
import shutil, sys
import z3
missing = [t for t in ("clang++-18", "llvm-cxxfilt-18", "g++", "cvc5", "z3", "z3-new") if not shutil.which(t)]
print("z3 API", z3.get_version_string(), "missing:", missing)
sys.exit(1 if missing else 0)

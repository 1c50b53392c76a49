"""Nothing is prepared in advance (every check rebuilds what it needs); this verifies that the tools are there."""
import shutil, sys
import z3
missing = [t for t in ('g++', 'clang++', 'python3') if not shutil.which(t)]
print('z3', z3.get_version_string(), 'missing:', missing)
sys.exit(1 if missing else 0)

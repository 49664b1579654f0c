"""Nothing to build: checks that the tools the front end needs are there, and warms its cache."""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
for t in ("clang", "opt"):
    if not (shutil.which(t) or shutil.which(t + "-18")):
        sys.exit(f"missing tool {t}")
from sa import ir
p = ir.load()
print(f"{len(p.files)} files, {len(p.functions)} functions")

import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build_ir
print(build_ir.irdump_path())

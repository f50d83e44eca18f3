"""setup_cmd: build the clang tool (checks rebuild it themselves when it is missing)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import cpp
print("tool:", cpp.tool())

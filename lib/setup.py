"""setup_cmd: builds every driver from /repo's tree so that checks only rebuild what changed."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ws
print(ws.build(ws.drivers()))

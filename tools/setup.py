"""setup_cmd: build the two native helpers (every check also does so itself when they are missing)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
sys.dont_write_bytecode = True
from ppv import ir
ir.ensure_tool(); ir.ensure_lp()
print('tools built')

import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.dont_write_bytecode = True
from ppv.run import main
sys.exit(main())

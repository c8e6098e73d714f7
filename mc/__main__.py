import os
import sys

from mc.core import main

rc = main(sys.argv[1:])
sys.stdout.flush()
sys.stderr.flush()
os._exit(rc)  # nothing left behind (a killed worker's queue, say) may keep the result from being reported

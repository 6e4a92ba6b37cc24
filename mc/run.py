import sys
from mc.common import main

sys.exit(main(sys.argv[1:]))

import sys
from kdmon.core import main
sys.exit(main(sys.argv[1:]))

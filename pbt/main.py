import sys
from pbt import fw

sys.exit(fw.main(sys.argv[1:]))

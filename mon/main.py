import sys
from mon.core import main
sys.exit(main())

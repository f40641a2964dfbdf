import sys
from vt.core import main
sys.exit(main())

from .runner import main
import sys

sys.exit(main())

import sys

from . import boot  # noqa: F401
from .core import main

sys.exit(main(sys.argv[1:]))

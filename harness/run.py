import sys
import multiprocessing.connection  # noqa: F401

from lib import main

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))

import sys
from mc import core
if __name__ == "__main__":
    rc = core.main(sys.argv[1:])
    sys.stdout.flush()
    sys.stderr.flush()
    import os
    os._exit(rc)

import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
# Pillow and fontTools, the library's optional dependencies
sys.path.append('/opt/venv/lib/python3.12/site-packages')
sys.setrecursionlimit(5000)

from lib import harness  # noqa: E402

if __name__ == '__main__':
    sys.exit(harness.main(sys.argv[1:]))

import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VSIM_REPO', '/repo')
sys.path[0:0] = [REPO, HERE]
sys.path[:] = [p for i, p in enumerate(sys.path) if p not in sys.path[:i]]
from vsim import core
core.install()
from vsim import osfs
osfs.install()
import numpy
import mdp
assert os.path.realpath(mdp.__file__).startswith(os.path.realpath(REPO)), mdp.__file__
from vsim import driver
if __name__ == '__main__':
    rc = driver.cli(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc)

import os
import sys

import randomgen

from harness import core

build = os.path.join(os.environ["VERIF_ROOT"], ".build")
assert randomgen.__file__.startswith(build), randomgen.__file__
if sys.argv[1] == "replay":
    sys.exit(core.replay(sys.argv[2]))
sys.exit(core.run_property(sys.argv[1]))

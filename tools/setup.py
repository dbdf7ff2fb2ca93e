"""setup_cmd: nothing to build; confirms that what the checks need is there."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from qv import env  # noqa: E402

env.setup()
import hypothesis, matplotlib, numpy, scipy  # noqa: E401,E402

env.check_origin()
print("hypothesis", hypothesis.__version__, "numpy", numpy.__version__,
      "scipy", scipy.__version__, "matplotlib", matplotlib.__version__)

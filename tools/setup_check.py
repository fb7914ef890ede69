"""setup_cmd: nothing is built; see that what the checks need is there."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'pbt'))
import core  # noqa: E402

core.setup_path()
import hypothesis  # noqa: E402
import numpy  # noqa: E402
import tables  # noqa: E402
import freesif  # noqa: E402

print('hypothesis %s, numpy %s, tables %s, freesif from %s' % (
    hypothesis.__version__, numpy.__version__, tables.__version__,
    os.path.dirname(freesif.__file__)))

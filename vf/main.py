import logging
import os
import sys
import warnings

warnings.filterwarnings('ignore')
logging.getLogger().setLevel(logging.ERROR)


def quiet():
    import numpy as np
    np.seterr(all='ignore')
    from dnutils import logs
    import jpt.trees
    jpt.trees.JPT.logger.level = logs.ERROR
    repo = os.environ.get('JPT_REPO', '/repo')
    import jpt
    assert os.path.realpath(jpt.__file__).startswith(os.path.realpath(repo) + os.sep), jpt.__file__


if __name__ == '__main__':
    quiet()
    from vf.core import run
    sys.exit(run(sys.argv[1].upper(), sys.argv[2:]))

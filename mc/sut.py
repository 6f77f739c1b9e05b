"""The system under test: /repo's working tree, translated and importable."""

import logging
import os
import sys
import types
import warnings

from mc import tree

ROOT = None
WC_CALLS = []


class WC1994(object):
    """Stand-in for nhlib's scaling relation, which is not installed.

    Wells and Coppersmith (1994), rupture area for all rakes; it records the
    arguments it was given.
    """

    def get_median_mag(self, area, rake):
        import math
        WC_CALLS.append((area, rake))
        slope, offset = 0.98, 4.07
        if rake is not None:
            if 45 <= rake <= 135:
                slope, offset = 0.90, 4.33
            elif -135 <= rake <= -45:
                slope, offset = 1.02, 3.93
            else:
                slope, offset = 1.02, 3.98
        return offset + slope * math.log10(area)


def load():
    """Build the tree and make it importable; returns its path."""
    global ROOT
    for name in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS',
                 'MKL_NUM_THREADS'):
        os.environ[name] = '1'
    sys.dont_write_bytecode = True
    ROOT = tree.build()
    sys.path.insert(0, ROOT)
    warnings.simplefilter('ignore')
    import numpy
    numpy.seterr(all='ignore')
    nhlib = types.ModuleType('nhlib')
    scalerel = types.ModuleType('nhlib.scalerel')
    wc1994 = types.ModuleType('nhlib.scalerel.wc1994')
    wc1994.WC1994 = WC1994
    nhlib.scalerel, scalerel.wc1994 = scalerel, wc1994
    sys.modules.update({'nhlib': nhlib, 'nhlib.scalerel': scalerel,
                        'nhlib.scalerel.wc1994': wc1994})
    logger = logging.getLogger('mt_logger')
    logger.addHandler(logging.NullHandler())
    logger.propagate = False
    logger.setLevel(logging.DEBUG)
    return ROOT


def scratch():
    """A scratch directory of this process, removed when the check ends."""
    path = os.path.join(os.path.dirname(ROOT), 'work-%d' % os.getpid())
    os.makedirs(path, exist_ok=True)
    return path

"""Bring in the system under test, with all the seams installed first."""

import os
import sys

from sim import clock, locks, simfs


REPO = os.environ.get('VERIF_REPO', '/repo')
_loaded = False


def load(sim_locks=False):
    global _loaded
    if _loaded:
        return
    _loaded = True
    clock.install()
    simfs.install()
    if sim_locks:
        locks.install()
    sys.path.insert(0, REPO)
    import httpolice
    import httpolice.cli
    import httpolice.helpers
    import httpolice.inputs
    import httpolice.reports
    path = os.path.abspath(httpolice.__file__)
    if not path.startswith(os.path.abspath(REPO) + os.sep):
        raise RuntimeError('wrong httpolice imported: %s' % path)


def root():
    return os.path.abspath(REPO) + os.sep + 'httpolice' + os.sep


def in_sut(tb):
    """Does this traceback pass through the code under test?"""
    root = os.path.abspath(REPO) + os.sep + 'httpolice' + os.sep
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(root):
            return True
        tb = tb.tb_next
    return False


def is_sut_file(filename):
    return filename.startswith(
        os.path.abspath(REPO) + os.sep + 'httpolice' + os.sep)

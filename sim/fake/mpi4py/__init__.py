"""Simulated mpi4py (see /verif/sim).  Only what unidist can reasonably use."""
__version__ = "4.1.2"


class Rc:
    def __init__(self):
        self.initialize = True
        self.finalize = None
        self.recv_mprobe = True

    def __call__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)


rc = Rc()

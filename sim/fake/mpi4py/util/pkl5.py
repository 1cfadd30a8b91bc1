import simclient


class _BigMPI:
    @property
    def blocksize(self):
        return simclient.C.cfg.get("blocksize") or 1 << 30

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        pass

    def __call__(self, buf):
        from mpi4py import MPI

        buf = memoryview(buf)
        return (buf, buf.nbytes, MPI.BYTE)


_bigmpi = _BigMPI()

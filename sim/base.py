"""What every check has."""


class BaseCheck(object):
    id = None
    level = "exploration"
    runs = {"quick": 200, "thorough": 4000}
    probes = ()
    rule = ("one run = one seeded scenario; each execution of the real code under one fault "
            "schedule counts once; non-trivial = a fault fired, the process was killed or threads "
            "interleaved; distinct by digest of the sequence of OS operations, injected faults and "
            "outcome (or of the thread switch sequence)")
    real = ["hftools (all code under test, from /repo)", "CPython io/os", "numpy", "h5py + HDF5 library", "PyYAML",
            "kernel file system below the shim (tmp directory)"]
    stubs = ["libc file, directory, clock and randomness calls (LD_PRELOAD shim that forwards or faults)"]
    assumptions = ["process crashes lose nothing already handed to write(): power loss is not modelled, hftools never calls fsync"]

    def prepare(self):
        """Before hftools is imported."""

    def warm(self):
        """Imports and first calls, so that runs start from the same state."""

    def finish(self):
        """When everything is over."""

    def scenario(self, rng, tier):
        raise NotImplementedError

    def run(self, run, sc):
        raise NotImplementedError

    def shrink(self, sc):
        return iter(())

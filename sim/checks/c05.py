from savecheck import SaveCheck


class Check(SaveCheck):
    id = "C05"
    formats = ("hdf5", "hdf5", "hdf5v1")
    fork = True
    runs = {"quick": 400, "thorough": 12000}

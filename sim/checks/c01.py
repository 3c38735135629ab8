from savecheck import SaveCheck


class Check(SaveCheck):
    id = "C01"
    formats = ("touchstone",)
    runs = {"quick": 1200, "thorough": 40000}

from savecheck import SaveCheck


class Check(SaveCheck):
    id = "C03"
    formats = ("spdata",)
    runs = {"quick": 1200, "thorough": 40000}

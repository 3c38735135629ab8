from savecheck import SaveCheck


class Check(SaveCheck):
    id = "C04"
    formats = ("mdif",)
    runs = {"quick": 1200, "thorough": 40000}

from savecheck import SaveCheck


class Check(SaveCheck):
    id = "C02"
    formats = ("citi",)
    runs = {"quick": 1200, "thorough": 40000}

"""property id -> thunk returning the check function."""


def _in(mod, name):
    def get():
        import importlib
        return getattr(importlib.import_module("checks." + mod), name)
    return get


CHECKS = {
    "C01": _in("effects", "c01"), "C02": _in("effects", "c02"), "C03": _in("effects", "c03"), "C23": _in("effects", "c23"),
    "C09": _in("candidates", "c09"),
    "C25": _in("board", "c25"), "C26": _in("board", "c26"),
    "C15": _in("ratings", "c15"), "C18": _in("commands", "c18"),
    "C22": _in("outside", "c22"),
    "C24": _in("options", "c24"),
    "C10": _in("search", "c10"),
    "C11": _in("backtrack", "c11"),
    "C12": _in("patterns", "c12"),
    "C14": _in("progress", "c14"),
    "C13": _in("steps", "c13"),
    "C30": _in("encoding", "c30"),
    "C06": _in("notation", "c06"),
    "C07": _in("notation", "c07"),
    "C20": _in("texts", "c20"),
    "C19": _in("failures", "c19"),
    "C21": _in("saved", "c21"), "C16": _in("generate", "c16"), "C17": _in("generate", "c17"),
    "C08": _in("candidates", "c08"),
    "C04": _in("houses", "c04"), "C05": _in("houses", "c05"),
}

import importlib

TABLE = {
    "C01": ("c01", "run_c01"),
    "C02": ("c01", "run_c02"),
    "C03": ("c01", "run_c03"),
    "C04": ("c04", "run"),
    "C09": ("c09", "run"),
    "C05": ("c05", "run"),
    "C06": ("c06", "run"),
    "C07": ("c07", "run"),
    "C10": ("c10", "run"),
    "C11": ("c11", "run"),
    "C12": ("c12", "run"),
    "C13": ("c13", "run"),
    "C14": ("c14", "run"),
    "C15": ("c15", "run"),
    "C16": ("c15", "run_c16"),
    "C17": ("c17", "run"),
    "C18": ("c18", "run"),
    "C19": ("c19", "run"),
    "C20": ("c20", "run"),
    "C21": ("c21", "run"),
    "C24": ("c24", "run"),
}


def get(pid):
    mod, fn = TABLE[pid]
    m = importlib.import_module("props." + mod)
    return getattr(m, fn), "other", (m.__doc__ or "").strip()

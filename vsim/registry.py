import importlib

MODS = ["checks_heap", "checks_cml", "checks_net", "checks_fs", "checks_io", "checks_lang", "checks_lib", "checks_repl", "checks_docs", "checks_trace"]


def classes():
    out = {}
    for m in MODS:
        mod = importlib.import_module("vsim." + m)
        for n, c in vars(mod).items():
            if isinstance(c, type) and getattr(c, "__module__", "") == mod.__name__ and n[0] == "P" and n[1:].isdigit():
                out[c.id] = c
    return out


def get(i):
    return classes()[i]()

import importlib
WHERE = {}
for mod, ids in {
    "p_algo": ["C01", "C02", "C03", "C04", "C05", "C06"],
    "p_http": ["C10", "C11", "C12", "C13"],
    "p_parser": ["C14", "C15", "C16", "C17"],
    "p_finish": ["C18"],
    "p_spdy": ["C20"],
    "p_types": ["C07"],
    "p_message": ["C08", "C09"],
}.items():
    for i in ids:
        WHERE[i] = mod


def get(pid):
    m = importlib.import_module(WHERE[pid])
    return m.property(pid)

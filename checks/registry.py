CHECKS = {}
for k in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06'): CHECKS[k] = ('c_kernels', 'main')
CHECKS["C14"] = ("c_threads", "c14")
CHECKS["C15"] = ("c_threads", "c15")
CHECKS["C16"] = ("c_effects", "c16")
for k in ('C07', 'C08', 'C10', 'C11', 'C12', 'C13'): CHECKS[k] = ('c_dispatch', 'main')
CHECKS["C17"] = ("c_getitem", "c17")
CHECKS["C18"] = ("c_mask", "c18")
CHECKS["C27"] = ("c_columns", "c27")
CHECKS["C28"] = ("c_python", "c28")
for k in ("C19", "C20"): CHECKS[k] = ("c_sort", "main")
CHECKS["C21"] = ("c_sort", "c21")
CHECKS["C26"] = ("c_lexsort", "main")
for k in ("C23", "C24"): CHECKS[k] = ("c_native", "main")
CHECKS["C25"] = ("c_switch", "main")

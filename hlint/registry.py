"""Property -> rule of the analyser."""

RULES = {
    "C01": ("math_", "storage"),
    "C02": ("math_", "triangles"),
    "C03": ("math_", "contractions"),
    "C04": ("math_", "products"),
    "C05": ("math_", "inverse"),
    "C06": ("math_", "eigen"),
    "C07": ("math_", "integers"),
    "C10": ("frameworks", "inv_stress"),
    "C11": ("frameworks", "inv_tangent"),
    "C12": ("frameworks", "none_protocol"),
    "C13": ("frameworks", "str_stress"),
    "C14": ("frameworks", "str_tangent"),
    "C15": ("frameworks", "coincident"),
    "C16": ("frameworks", "generalized"),
    "C17": ("models", "strain_measures"),
    "C18": ("models", "third_order"),
    "C19": ("models", "ogden"),
    "C20": ("models", "torch_model"),
    "C30": ("spaces", "deformation"),
    "C31": ("spaces", "distortional"),
    "C32": ("spaces", "dilatational"),
    "C33": ("spaces", "configurations"),
    "C34": ("behaviour", "states"),
    "C35": ("behaviour", "history"),
    "C36": ("behaviour", "ownership"),
    "C37": ("behaviour", "scaling"),
    "C38": ("behaviour", "parallel"),
    "C39": ("failures", "errors"),
    "C40": ("lab", "loadcases"),
    "C41": ("lab", "loadstress"),
    "C42": ("lab", "simulation"),
    "C43": ("lab", "experiment"),
    "C44": ("lab", "residuals"),
    "C45": ("lab", "results"),
    "C46": ("lab", "untouched"),
    "C48": ("lab", "plots"),
    "C49": ("global_", "interface"),
    "C50": ("global_", "requirements"),
    "C51": ("global_", "effects"),
    "C52": ("global_", "programs"),
}

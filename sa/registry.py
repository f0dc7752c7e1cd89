"""property id -> (rule function, metadata)"""
import importlib

BASE = ["CPython's ast parser",
        "the meaning tables of sa/interp.py for Python and numpy operations",
        "libraries outside scikit-topt (scikit-fem, scipy, meshio) behave as "
        "documented; they are uninterpreted"]

TABLE = {
    "C06": ("material", "c06"),
    "C01": ("update", "c01"),
    "C02": ("update", "c02"),
    "C03": ("update", "c03"),
    "C04": ("update", "c04"),
    "C07": ("material", "c07"),
    "C05": ("chain", "c05"),
    "C33": ("chain", "c33"),
    "C09": ("sched", "c09"),
    "C10": ("sched", "c10"),
    "C11": ("run", "c11"),
    "C12": ("run", "c12"),
    "C15": ("run", "c15"),
    "C34": ("run", "c34"),
    "C31": ("config", "c31"),
    "C13": ("config", "c13"),
    "C17": ("config", "c17"),
    "C08": ("fem", "c08"),
    "C19": ("fem", "c19"),
    "C23": ("fem", "c23"),
    "C32": ("fem", "c32"),
    "C27": ("solvers", "c27"),
    "C28": ("solvers", "c28"),
    "C25": ("filt", "c25"),
    "C26": ("filt", "c26"),
    "C24": ("filt", "c24"),
    "C21": ("tasks", "c21"),
    "C35": ("orient", "c35"),
    "C22": ("loads", "c22"),
    "C30": ("tags", "c30"),
    "C29": ("lookup", "c29"),
    "C16": ("scale", "c16"),
    "C20": ("pure", "c20"),
    "C36": ("export", "c36"),
    "C18": ("timer", "c18"),
    "C14": ("history", "c14"),
    "C43": ("cli", "c43"),
    "C44": ("images", "c44"),
    "C45": ("loader", "c45"),
    "C46": ("steps", "c46"),
}

EXPL = {}


def get(pid):
    m, f = TABLE[pid]
    mod = importlib.import_module(f"sa.rules.{m}")
    return getattr(mod, f), {
        "level": "other",
        "explanation": EXPL.get(pid) or (getattr(mod, f).__doc__ or
                                         mod.__doc__ or pid),
        "trusted": BASE + getattr(mod, "TRUSTED", [])}

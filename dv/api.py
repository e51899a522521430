"""What contract files see: registration of contracts."""
import os

CONTRACTS = []


class Contract:
    def __init__(self, fn, name, subjects, strict, known, sym, conc, trials, weight):
        self.fn = fn
        self.name = name
        self.subjects = subjects
        self.strict = strict
        self.known = known
        self.sym = sym
        self.conc = conc
        self.trials = trials
        self.weight = weight
        self.doc = (fn.__doc__ or "").strip()


def contract(*subjects, strict=True, known=None, sym=True, conc=True, trials=None, weight=1):
    """Register a contract over the named functions.

    strict: every division, root and logarithm met must be shown to be defined
    (otherwise definedness is assumed and listed).
    known:  id of the known finding this contract demonstrates.
    sym / conc: whether the verifier / the bounded run uses it."""
    def deco(fn):
        CONTRACTS.append(Contract(fn, fn.__name__, subjects, strict, known, sym, conc, trials, weight))
        return fn
    return deco


def contract_path(prop):
    return os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts",
                        prop.lower() + ".py")


def repo_root():
    return os.environ.get("VERIF_REPO", "/repo")

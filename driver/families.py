"""One function per property."""
from . import store

CHECKS = {}
for _p in ("P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08"):
    CHECKS[_p] = store.check
from . import pattern  # noqa: E402

CHECKS["P09"] = pattern.canonical
CHECKS["P10"] = pattern.setting
CHECKS["P11"] = pattern.maps
from . import iso  # noqa: E402

CHECKS["P12"] = CHECKS["P13"] = iso.check
from . import lex  # noqa: E402

CHECKS["P14"] = lex.blankid
CHECKS["P15"] = lex.blankgen
CHECKS["P19"] = lex.interp
from . import text  # noqa: E402

CHECKS["P16"] = text.nquads
CHECKS["P17"] = text.serde
from . import values  # noqa: E402

CHECKS["P20"] = values.tuples
CHECKS["P18"] = values.terms
CHECKS["P21"] = values.macros

"""P06: a constraint accepts remaining single values only if they satisfy it (same contracts as P05)."""
from specs import p05_constraints as b
TUS = b.TUS
PROP = 'P06'
build = b.build

"""P04: interval domains (IntervalDomain, IntervalIntDomain, BoolDomain)."""
from specs import dom
TUS = dom.TUS
PROP = 'P04'
build = dom.contracts
def build(reg, db):
    dom.contracts(reg, db); dom.mutators(reg, db)

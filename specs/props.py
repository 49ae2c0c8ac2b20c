"""Which specifications and which harnesses decide each property."""
CE = ['Utils', 'TinyXml', 'ConstraintEngine']
TN = ['Utils', 'TinyXml', 'ConstraintEngine', 'PlanDatabase', 'TemporalNetwork']
PDB = TN[:-1]
SV = TN[:-1] + ['RulesEngine', 'TemporalNetwork', 'Solvers']
RS = TN[:-1] + ['RulesEngine', 'TemporalNetwork', 'Solvers', 'Resource']
NOTE = 'proof: every obligation of the functions under contract is discharged for all inputs (numbers treated as mathematical reals/integers; STL, Id handles and the listener/data-type interfaces trusted; see evidence). The harness is a bounded search for failing inputs on the compiled code.'
PROPS = {
    'P01': dict(specs=['p01_numbers'], harness=[('numbers', ['Utils', 'TinyXml'])], note=NOTE),
    'P02': dict(specs=['p02_intervals'], harness=[('domains', CE)], note=NOTE),
    'P03': dict(specs=['p03_enums'], harness=[('domains', CE)], note=NOTE),
    'P04': dict(specs=['p04_notify'], harness=[('domains', CE)], note=NOTE),
    'P05': dict(specs=['p05_constraints'], harness=[('constraints', CE)], note=NOTE),
    'P06': dict(specs=['p06_constraints'], harness=[('constraints', CE)], note=NOTE),
    'P07': dict(specs=['p07_engine'], harness=[('engine', CE)], note=NOTE),
    'P08': dict(specs=['p08_variable'], harness=[('engine', CE)], note=NOTE),
    'P09': dict(specs=['p09_graph'], harness=[('temporal', TN)], note=NOTE),
    'P10': dict(specs=['p09_graph'], harness=[('temporal', TN)], note=NOTE),
    'P11': dict(specs=['p11_resource'], harness=[('resource', RS)], note=NOTE),
    'P12': dict(specs=['p12_token', 'p12_tokenvar', 'p12_merge'], harness=[('token', PDB)], note=NOTE),
    'P13': dict(specs=['p13_solver', 'p13_decisions', 'p13_values', 'p13_flaws', 'p13_managers'], harness=[('solver', SV)], note=NOTE),
    'P14': dict(specs=['p14_rules'], harness=[('rules', PDB + ['RulesEngine'])], note=NOTE),
}

# properties not claimed, with the reason
NA = {}

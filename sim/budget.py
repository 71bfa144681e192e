"""How many simulated runs each tier spends per property (counts, so a tier is repeatable)."""
DEFAULT = {'quick': 4000, 'thorough': 60000}
RUNS = {'P20': {'quick': 1500, 'thorough': 20000}, 'P23': {'quick': 1500, 'thorough': 15000}, 'P24': {'quick': 3000, 'thorough': 30000},
        'P25': {'quick': 2500, 'thorough': 20000}}
WALL = {'quick': 150.0, 'thorough': 780.0}   # safety cap only


def runs(prop, tier):
    return RUNS.get(prop, DEFAULT)[tier]

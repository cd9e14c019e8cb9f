from .common import sim

SCENARIOS = [sim('C08', updatesigma=True)]

from .common import sim

SCENARIOS = [sim("C11")]

from .common import sim

simulation = sim('C03', method='dr')
many = sim('C03', method='dram', ntry=4)
many.__name__ = 'simulation_many_tries'
three = sim('C03', method='dram', ntry=3, n=2)
three.__name__ = 'simulation_three_tries'
SCENARIOS = [simulation, many, three]

from conc.sysrun import problem, execute, verify, again, continued


def sim(*props, **force):
    """whole simulation followed by the independent reference"""
    def simulation(s):
        P = problem(s, **force)
        R = execute(s, P)
        verify(s, P, R, props)
    return simulation

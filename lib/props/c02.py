"""C02: the term-substitution verdict, same state space as C01."""
from .vtsdec import run_decision


def run(tier):
    return run_decision('C02', tier, 'ts')


from .vtsdec import replay

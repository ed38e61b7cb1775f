"""C01: the VTS verdict.  States are conjunctions (ordered lists of constraints), a transition adds one constraint;
every state up to the bound is run on the real decision procedure and compared with the cell decomposition."""
from .vtsdec import run_decision


def run(tier):
    return run_decision('C01', tier, 'vts')


from .vtsdec import replay

from .encdec import run_enc
from .vtsdec import replay


def run(tier):
    return run_enc('C03', tier)

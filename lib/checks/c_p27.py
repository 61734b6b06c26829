"""P27: the pairs of Breit-Wheeler events (QedOps.tla: BWPairOK)."""
from checks import qedprod


def run(ctx):
    qedprod.run(ctx, 27, "bw")

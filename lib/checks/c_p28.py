"""P28: the photons of quantum synchrotron events and the recoil (QedOps.tla: QSPhotonOK, RecoilOK)."""
from checks import qedprod


def run(ctx):
    qedprod.run(ctx, 28, "qs")

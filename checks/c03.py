from c02 import run
from ref import AXION, AXION_MOD
def main(tier): return run(tier, [AXION, AXION_MOD], "C03").finish(1000)

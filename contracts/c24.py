"""C24: sampled trajectories are well formed and stop where asked."""
NOTE = ('contracts/c24.py and contracts/sampling.py: CTBN_Sample is executed for any network, limits and outcomes of the draws, cut at the sampling loop with an invariant (rows so far, current states valid, waiting times not '
        'before the last jump, jumps within the limit); the first row, every added row, the stop and the end marker are obligations. Rounding to 4 decimals is monotone (assumed of round); pandas rows and random draws as '
        'modelled; limits are -1 (none) or not negative; partial correctness: with an end time alone sampling ends with probability one only.')

from .sampling import *


def run(ctx):
    ctx.verify('TrajectoryGenerator.CTBN_Sample', lambda E, I: setup(E, I, ('C24',)), post)

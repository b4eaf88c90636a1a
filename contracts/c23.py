"""C23: rates and jump probabilities of the current parent states."""
NOTE = ('contracts/c23.py and contracts/sampling.py: CTBN_Sample is executed for any number of variables, any parents, cardinalities and matrices, cut at the sampling loop with an invariant (the last row holds the current '
        'states, missing waiting times are those to be redrawn); one arbitrary iteration is checked: which matrices are looked up, the scale of every exponential draw, which waiting times are kept, who jumps, the '
        'probabilities of the multinomial draw and which waiting times are dropped afterwards. The look-up of a matrix is used by its contract (C05); pandas rows and the random draws (positive waiting times, an outcome '
        'of positive probability) as modelled; every state can be left, at least two states per variable, no variable is called Time; reals for floats; partial correctness (with no limit sampling does not end).')

from .sampling import *


def run(ctx):
    ctx.verify('TrajectoryGenerator.CTBN_Sample', lambda E, I: setup(E, I, ('C23',)), post)

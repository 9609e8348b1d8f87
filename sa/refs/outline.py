"""Reference definitions: the outline of a droplet in a series of maps."""

import numpy as np

from ref.spreading import unwrapped, absolute


def states_of(heights, known, states):
    """The state of every layer from that of the last map: a layer which was
    not in it begins like the one next to it."""
    out = []
    for h in heights:
        if not known:
            out.append((None, None, 0, 0))
            continue
        k = 0
        for i in range(len(known)):
            if known[i] <= h:
                k = i
        out.append(states[k])
    return out


def outlines(maps, spacing, box, recenter):
    """maps: for every map the number of each layer and the positions of its
    left and right edge, and the positions and masses of all bins."""
    known, states, out = [], [], []
    for heights, left, right, x, m in maps:
        states = states_of(heights, known, states)
        states = [unwrapped(states[i], box, left[i], right[i]) for i in range(len(heights))]
        known = heights
        ends = [absolute(s, box) for s in states]
        xs = [e[0] for e in ends] + [e[1] for e in reversed(ends)]
        ys = [(h - heights[0])*spacing for h in heights]
        ys = ys + list(reversed(ys))
        centre = 0.
        if recenter == 'zero':
            centre = (xs[0] + xs[-1])/2
        elif recenter == 'com':
            centre = np.sum(x*m)/np.sum(m)
        out.append(([x - centre for x in xs], ys))
    return out

"""Reference definitions: spreading of a droplet on a periodic substrate."""

import numpy as np

from strata.dataformats.read import read_data_file
from strata.spreading.collect import get_spreading_edges
from droplets.flow import FlowData
from droplets.interface import get_interface


def crossing(x, box):
    """Direction in which an edge which is now at x has left the box."""
    if x % box > box - x % box:
        return -1
    return 1


def unwrapped(state, box, left, right):
    """Next (left, right, turns of the left edge, turns of the right edge)."""
    old_left, old_right, turns_left, turns_right = state
    if old_left is None:
        if left > right:
            turns_right = turns_right + 1
    else:
        changed = (left > right) != (old_left > old_right)
        if changed:
            if abs(left - old_left) > abs(right - old_right):
                turns_left = turns_left + crossing(left + turns_left*box, box)
            else:
                turns_right = turns_right + crossing(right + turns_right*box, box)
    return left, right, turns_left, turns_right


def absolute(state, box):
    left, right, turns_left, turns_right = state
    return left + turns_left*box, right + turns_right*box


def collected(paths, dt, t0):
    """Times and radii of all maps in which the droplet wets."""
    times, radii = [], []
    state = (None, None, 0, 0)
    for path in paths:
        data, info, meta = read_data_file(path)
        left, right = get_spreading_edges(FlowData(data, info=info), 'M', 1.)
        if left is not None and right is not None:
            box = info['shape'][0]*info['spacing'][0]
            state = unwrapped(state, box, left, right)
            a, b = absolute(state, box)
            times.append(t0 + len(times)*dt)
            radii.append(abs(b - a)/2)
    return times, radii


def edges(flow, label, cutoff_radius, floor, cutoff, cutoff_bins, search_longest_connected, coord_labels=('X', 'Y')):
    """Positions of the edges of the bottom layer, or of the layer at the floor."""
    xs, ys = flow.data[coord_labels[0]], flow.data[coord_labels[1]]
    height = None
    if floor is not None:
        # bins in the first length unit above the floor, else the closest to it
        height = ys[np.argmin(np.abs(np.ceil(ys - floor) - 1))]
    more = {}
    if coord_labels != ('X', 'Y'):
        more['coord_labels'] = coord_labels
    for left, right in get_interface(flow, label, cutoff_radius=cutoff_radius, cutoff=cutoff, cutoff_bins=cutoff_bins,
                                     search_longest_connected=search_longest_connected, ylims=(height, height), **more):
        if floor is None or ys[left] == height:
            return xs[left], xs[right]
    return None, None


def searched(paths, **options):
    """The search asked for in every map."""
    radius = options.pop('cutoff_radius', 1.)
    for path in paths:
        data, info, meta = read_data_file(path)
        get_spreading_edges(FlowData(data, info=info), label='M', cutoff_radius=radius, search_longest_connected=True, **options)

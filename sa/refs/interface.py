"""Reference definitions: the interface of a droplet."""

import numpy as np


def neighbours(cell, data, radius, xlabel, ylabel):
    """All other cells within the (closed) radius of a cell."""
    xs, ys = data[xlabel], data[ylabel]
    found = np.where((xs - xs[cell])**2 + (ys - ys[cell])**2 <= radius**2)[0]
    return found[found != cell]


def wet(cell, data, label, radius, cutoff, bins, xlabel, ylabel):
    """A cell of the liquid: it and enough of its neighbours are at least at
    the cutoff."""
    near = neighbours(cell, data, radius, xlabel, ylabel)
    return bool(data[label][cell] >= cutoff) and bool(np.sum(data[label][near] >= cutoff) >= bins)


def is_wet(x, y):
    """Whether the cell at a position is of the liquid (not interpreted)."""


def heights(data, label, cutoff, ylabel, lower, upper):
    ys = np.unique(data[ylabel][data[label] >= cutoff])
    if lower is not None:
        ys = ys[ys >= lower]
    if upper is not None:
        ys = ys[ys <= upper]
    return ys


def place(data, x, y, xlabel, ylabel):
    """Index of the cell at a position."""
    return np.where((data[xlabel] == x) & (data[ylabel] == y))[0][0]


def first_wet(cells, data, xlabel, ylabel):
    for cell in cells:
        if is_wet(cell[xlabel], cell[ylabel]):
            return place(data, cell[xlabel], cell[ylabel], xlabel, ylabel)
    return None


def outermost(data, label, cutoff, xlabel, ylabel, lower, upper):
    """The first liquid cell from the left and from the right of all layers,
    from the bottom to the top."""
    filled = data[data[label] >= cutoff]
    for y in heights(data, label, cutoff, ylabel, lower, upper):
        layer = np.sort(filled[filled[ylabel] == y], order=xlabel)
        left = first_wet(layer, data, xlabel, ylabel)
        right = first_wet(reversed(layer), data, xlabel, ylabel)
        if left is not None:
            yield [left, right]


def longest(data, xlabel, ylabel, lower, upper, n):
    """The ends of the longest row of connected liquid cells of all layers,
    where the last cell of a layer is connected with its first."""
    ys = np.unique(data[ylabel])
    if lower is not None:
        ys = ys[ys >= lower]
    if upper is not None:
        ys = ys[ys <= upper]
    for y in ys:
        cells = np.where(data[ylabel] == y)[0]
        filled = [is_wet(data[xlabel][cell], data[ylabel][cell]) for cell in cells]
        best, start = 0, None
        for first in range(n):
            if filled[first] and (not filled[first - 1] or all(filled)):
                length = 1
                for k in range(1, n):
                    if length == k and filled[(first + k) % n]:
                        length = k + 1
                if length > best:
                    best, start = length, first
        if start is not None:
            yield [cells[start], cells[(start + best - 1) % n]]


def least(data, label):
    return np.min(data[label])


def largest(data, label):
    return np.max(data[label])


def midpoint(data, label):
    return (least(data, label) + largest(data, label)) / 2


def least_distance(data, xlabel, ylabel):
    """The least distance between two columns or two rows."""
    gaps = []
    for label in (xlabel, ylabel):
        values = np.unique(data[label])
        if values.size > 1:
            gaps.append(np.min(np.diff(values)))
    return min(gaps)

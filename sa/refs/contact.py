"""Contact line cells and samples as they are meant."""
import numpy as np


def read(path):
    """Uninterpreted: replaced by the check."""
    raise ValueError


def cells(flow, label, options):
    """Uninterpreted: replaced by the check."""
    raise ValueError


def moved(bins, side, info):
    """Uninterpreted: replaced by the check."""
    raise ValueError


def sample(flow, label):
    """Uninterpreted: replaced by the check."""
    raise ValueError


def groups(files, average, rolling):
    """(spacing of the last, left sides, right sides) of every complete group."""
    spacings, lefts, rights = [], [], []
    for path in files:
        spacing, left, right = read(path)
        spacings.append(spacing)
        lefts.append(left)
        rights.append(right)
    out = []
    for first in range(0, len(files) - average + 1, 1 if rolling else average):
        last = first + average
        out.append((spacings[last - 1], lefts[first:last], rights[first:last]))
    return out


def snapshots(generator):
    """Values of a generator at the time at which they are given out."""
    out = []
    for spacing, left, right in generator:
        out.append((spacing, list(left), list(right)))
    return out


def listed(generator):
    return [pair for pair in generator]


def adjusted(xs, ys, side):
    """The inner lower corner of the cells of a side: the left one has its
    droplet to the right. It is moved to (0, 0)."""
    x = np.max(xs) if side == 'left' else np.min(xs)
    y = np.min(ys)
    return (x, y), xs - x, ys - y


def samples(pairs, labels, total, average, rolling, dt):
    times = []
    values = [[] for _ in labels]
    n = 0
    for left, right in pairs:
        left.data['U'] = -left.data['U']
        k = 0
        for label in labels:
            a, s = sample(left, label)
            b, t = sample(right, label)
            value = a + b if total else (a + b) / 2
            values[k].append([value, None if s is None or t is None else (s + t) / 2])
            k += 1
        first = n if rolling else n * average
        times.append((np.floor(average / 2) + first) * dt)
        n += 1
    return times, values


def placed(lefts, rights, xs, ys, spacing, recenter):
    """Coordinates of both averaged sides: from the origin back to the mean
    of their places (or to both sides of zero), on the grid of the spacing.
    lefts, rights: x places of every file; xs, ys: of both sides."""
    places = [sum(lefts) / len(lefts), sum(rights) / len(rights)]
    if recenter:
        half = (places[1] - places[0]) / 2
        places = [-half, half]
    dx, dy = spacing
    out = []
    for place, x, y in zip(places, xs, ys):
        out.append((x + (np.floor(place / dx) + 0.5) * dx, y + dy / 2))
    return out


def fused(left, right, dx):
    """Sides moved together: the last cell of the left and the first of the
    right are next to each other, with their common face at zero."""
    return left - (np.max(left) + dx / 2), right - (np.min(right) - dx / 2)


def part(data, x, y, outermost, side, width, height, extract_height):
    """Cells of a side: outermost holds the coordinates of the outermost
    cell of every layer with the height of the left one, from the bottom up."""
    x0, y0, first = outermost[0]
    ref = x0
    at_ref = True
    lowest, highest, top = x0, x0, y0
    for px, py, left in outermost[1:]:
        if left > first + height:
            break
        at_ref = at_ref and py <= y0 + extract_height
        if at_ref:
            ref = px
        lowest = min(lowest, px)
        highest = max(highest, px)
        top = py
    inner = ref + width if side == 'left' else ref - width
    lowest = min(lowest, inner)
    highest = max(highest, inner)
    return data[(x >= lowest) & (x <= highest) & (y >= y0) & (y <= top)]


def sides(data, x, y, edges, width, height, extract_height):
    """Left and right cells: edges holds per layer the outermost cells (left, right).
    Layers more than the height above the lowest left cell are not used."""
    return (part(data, x, y, [(l[0], l[1], l[1]) for l, r in edges], 'left', width, height, extract_height),
            part(data, x, y, [(r[0], r[1], l[1]) for l, r in edges], 'right', width, height, extract_height))

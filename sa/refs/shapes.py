"""Reference definitions: coordinates, area, length and angles of interfaces."""

import numpy as np

from strata.dataformats.read import read_data_file
from droplets.flow import FlowData
from droplets.interface import get_interface


def area(xs, ys):
    """Left edge from the bottom to the top, then the right edge back down:
    the area between them by the trapezoid rule."""
    n = len(xs)
    total = 0.
    for i in range(n//2 - 1):
        upper = xs[n - 2 - i] - xs[i + 1]
        lower = xs[n - 1 - i] - xs[i]
        total += (ys[i + 1] - ys[i])*(lower + upper)/2
    return total


def length(xs, ys):
    total = 0.
    for i in range(len(xs) - 1):
        total += np.sqrt((xs[i + 1] - xs[i])**2 + (ys[i + 1] - ys[i])**2)
    return total


def sides(path):
    """Both sides of the interface in a file, sorted by height."""
    xs, ys = np.genfromtxt(path, unpack=True)
    n = len(xs)//2
    out = []
    for part in (slice(0, n), slice(len(xs) - n, len(xs))):
        x, y = xs[part], ys[part]
        order = np.argsort(y)
        out.append((x[order], y[order]))
    return out


def measured(xs, ys, side, height):
    """Angle at the bottom of one side, with the point nearest to a height."""
    k = np.argmin(np.abs(ys - (ys[0] + height)))
    dx, dy = xs[k] - xs[0], ys[k] - ys[0]
    if side == 'right':
        dx = xs[0] - xs[k]
    return np.arccos(dx/np.sqrt(dx*dx + dy*dy))*180/np.pi


def fitted(left, right):
    """Angle of the circle segment with the chord and height of an interface."""
    chord = right['X'][0] - left['X'][0]
    height = (np.max(left['Y']) + np.max(right['Y']))/2
    return np.arctan(2*height/chord)*2*180/np.pi


def contact_angle(flow, height, label, floor=None, coord_labels=('X', 'Y'), **options):
    xs, ys = flow.data[coord_labels[0]], flow.data[coord_labels[1]]
    bottom = None
    if floor is not None:
        bottom = ys[np.argmin(np.abs(ys - floor))]
    if coord_labels != ('X', 'Y'):
        options['coord_labels'] = coord_labels
    layers = list(get_interface(flow, label, ylims=(bottom, None), **options))
    if not layers:
        return None, None
    first = layers[0]
    base = ys[first[0]]
    if floor is not None and base != bottom:
        return None, None
    angles = (None, None)
    for left, right in layers[1:]:
        dy = ys[left] - base
        if dy > height:
            break
        angles = (np.degrees(np.arctan2(dy, xs[left] - xs[first[0]])), np.degrees(np.arctan2(dy, xs[first[1]] - xs[right])))
    return angles


def same_heights(ys):
    n = len(ys)
    return all(np.isclose(ys[i], ys[n - 1 - i]) for i in range(n//2))


def sampled(interfaces, variable, dt):
    """Times and values of all interfaces whose sides belong together."""
    times, values = [], []
    for i in range(len(interfaces)):
        xs, ys = interfaces[i]
        if variable == 'area':
            if not same_heights(ys):
                continue
            value = area(xs, ys)
        else:
            value = length(xs, ys)
        times.append(dt*i)
        values.append(value)
    return times, values


def angle_series(edges, fit, height, dt):
    """Times, angles of the circle segments, of the left and the right sides and
    the means of both."""
    times, segment, lefts, rights, means = [], [], [], [], []
    for i in range(len(edges)):
        (xl, yl), (xr, yr) = edges[i]
        if fit:
            segment.append(fitted({'X': xl, 'Y': yl}, {'X': xr, 'Y': yr}))
        if height is not None:
            l, r = measured(xl, yl, 'left', height), measured(xr, yr, 'right', height)
            lefts.append(l)
            rights.append(r)
            means.append((l + r)/2)
        if fit or height is not None:
            times.append(dt*i)
    return times, segment, lefts, rights, means

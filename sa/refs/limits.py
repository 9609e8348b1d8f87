"""Reference definitions: selection of bins within limits."""

import numpy as np


def within(values, lims):
    keep = np.ones(values.size, dtype=bool)
    if lims[0] is not None:
        keep = keep & (values >= lims[0])
    if lims[1] is not None:
        keep = keep & (values <= lims[1])
    return keep


def selected(data, labels, limits):
    """The bins of a record which keep all limits, as a dict of fields."""
    keep = np.ones(data.size, dtype=bool)
    for label in limits:
        keep = keep & within(data[label], limits[label])
    return {label: data[label][keep] for label in labels}


def number(data, limits):
    keep = np.ones(data.size, dtype=bool)
    for label in limits:
        keep = keep & within(data[label], limits[label])
    return np.sum(keep)


def distinct(data, limits, label):
    keep = np.ones(data.size, dtype=bool)
    for l in limits:
        keep = keep & within(data[l], limits[l])
    return len(np.unique(data[label][keep]))


def smallest(data, limits, label):
    keep = np.ones(data.size, dtype=bool)
    for l in limits:
        keep = keep & within(data[l], limits[l])
    return np.min(data[label][keep])


def indices(data, limits):
    keep = np.ones(data.size, dtype=bool)
    for label in limits:
        keep = keep & within(data[label], limits[label])
    return np.arange(data.size)[keep]


def moving(data, labels, coord_labels, flow_labels, colour, clim, xlim, ylim):
    """Arrows: bins with flow, within the limits and with the cutoff value."""
    keep = (data[flow_labels[0]] != 0) | (data[flow_labels[1]] != 0)
    keep = keep & within(data[coord_labels[0]], xlim) & within(data[coord_labels[1]], ylim)
    if clim[0] is not None:
        keep = keep & within(data[clim[0]], (clim[1], None))
    weights = np.ones(data.size)
    if colour is not None:
        weights = data[colour]
    return [data[coord_labels[0]][keep], data[coord_labels[1]][keep], data[flow_labels[0]][keep], data[flow_labels[1]][keep], weights[keep]]


def overwrite(data, label, value):
    data[label] = value

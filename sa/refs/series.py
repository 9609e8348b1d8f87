"""Reference definitions: quantities of bins sampled per file."""

import numpy as np

from ref import files, limits, sampling
from droplets.flow import FlowData
from strata.dataformats.read import read_data_file


def chosen(data, cutoff, cutoff_label):
    if cutoff_label is None:
        return data['X'] == data['X']
    values = data[cutoff_label]
    if cutoff is None:
        cutoff = (np.min(values) + np.max(values))/2
    return values >= cutoff


def value(flow, label, cutoff, cutoff_label, total, viscosity):
    """(value, standard deviation or None)."""
    data = flow.data
    if label == 'visc_diss':
        data = np.sort(flow.data, order=['Y', 'X'])
        values = sampling.dissipation(flow, viscosity, 'U', 'V').ravel()
    elif label == 'inertial_energy':
        values = sampling.inertial_energy(data, 'M', 'U', 'V')
    elif label == 'flow_angle':
        keep = chosen(data, cutoff, cutoff_label)
        if total:
            raise ValueError
        angle = sampling.weighted_angle({l: data[l][keep] for l in ['U', 'V', 'M']}, 'U', 'V', 'M')
        return angle, None
    else:
        values = data[label]
    keep = chosen(data, cutoff, cutoff_label)
    values = values[keep]
    if total:
        return np.sum(values), None
    return np.mean(values), np.std(values)


def limited(data, info, xlim, ylim):
    labels = ['X', 'Y', 'N', 'T', 'M', 'U', 'V']
    keep = limits.within(data['X'], xlim) & limits.within(data['Y'], ylim)
    fields = {l: data[l][keep] for l in labels}
    if xlim == (None, None) and ylim == (None, None):
        fields = data
    return FlowData(fields, info=info)


def over_files(base, begin, end, ext, labels, dt, cutoff, cutoff_label, total, viscosity, floor, xlim, ylim):
    times = []
    values = [[] for label in labels]
    for i, path in enumerate(files.singles(base, begin, end, ext)):
        data, info, meta = read_data_file(path)
        flow = limited(data, info, xlim, ylim)
        for series, label in zip(values, labels):
            if label == 'slip_length':
                v, s = slip_length(flow, floor, ('X', 'Y'), ('U', 'V'))
            else:
                v, s = value(flow, label, cutoff, cutoff_label, total, viscosity)
            series.append(v)
        times.append(i*dt)
    return times, values


def slip_length(flow, floor, coord_labels, flow_labels):
    """Every column of bins (one x): line of y against the velocity, where it is zero."""
    nx, ny = flow.shape
    y = flow.data[coord_labels[1]].reshape(nx, ny)
    u = flow.data[flow_labels[0]].reshape(nx, ny)
    my, mu = np.mean(y, axis=1), np.mean(u, axis=1)
    slope = (np.mean(u*y, axis=1) - mu*my)/(np.mean(u*u, axis=1) - mu*mu)
    lengths = floor - (my - slope*mu)
    return np.mean(lengths), np.std(lengths)

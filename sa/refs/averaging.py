"""Reference definitions: the average command."""

import numpy as np

from ref import files, simple, limits, flow as flows
from droplets.flow import FlowData
from strata.dataformats.read import read_data_file
from strata.dataformats.write import write


def fields(data, keep):
    return {label: data[label][keep] for label in ['X', 'Y', 'N', 'T', 'M', 'U', 'V']}


def corner(origin, spacing):
    """Origin of written files: the lower corner of the first bin."""
    return [origin[0] - 0.5*spacing[0], origin[1] - 0.5*spacing[1]]


def steps(values, d):
    """Number of grid positions between the first and the last."""
    return int(round((np.max(values) - np.min(values))/d)) + 1


def grid(data, spacing):
    shape = [steps(data['X'], spacing[0]), steps(data['Y'], spacing[1])]
    return {
        'origin': corner([np.min(data['X']), np.min(data['Y'])], spacing),
        'spacing': [spacing[0], spacing[1]],
        'shape': shape,
        'num_bins': shape[0]*shape[1]
    }


def plain(base, out, begin, end, ext, group, rolling, xlim, ylim):
    for paths, path in files.groups_to_singles(base, out, begin, end, ext, ext, group, rolling):
        maps = []
        for p in paths:
            data, info, meta = read_data_file(p)
            if xlim != (None, None) or ylim != (None, None):
                data = fields(data, limits.within(data['X'], xlim) & limits.within(data['Y'], ylim))
            maps.append(data)
        mean = simple.average_data(*maps)
        write(path, mean, grid(mean, info['spacing']))


def combined(base, out, begin, end, ext, group, rolling, nx, ny):
    for paths, path in files.groups_to_singles(base, out, begin, end, ext, ext, group, rolling):
        maps = []
        for p in paths:
            data, info, meta = read_data_file(p)
            maps.append(data)
        mean = simple.average_data(*maps)
        spacing = info['spacing']
        center = {'origin': [np.min(mean['X']), np.min(mean['Y'])], 'spacing': spacing, 'shape': info['shape'], 'num_bins': info['num_bins']}
        new, info = simple.combine_bins(mean, center, nx, ny)
        write(path, new, {
            'origin': corner(info['origin'], info['spacing']),
            'spacing': [info['spacing'][0], info['spacing'][1]],
            'shape': info['shape'],
            'num_bins': info['num_bins']
        })


def finer(base, out, begin, end, ext, group, rolling, factor):
    weights = {'U': 'M', 'V': 'M', 'T': 'N'}
    for paths, path in files.groups_to_singles(base, out, begin, end, ext, ext, group, rolling):
        maps = []
        for p in paths:
            data, info, meta = read_data_file(p)
            maps.append(data)
        mean = simple.average_data(*maps)
        center = {'origin': (np.min(mean['X']), np.min(mean['Y'])), 'spacing': info['spacing'], 'shape': info['shape'], 'num_bins': info['num_bins']}
        fields, shape, spacing, origin, num = flows.supersampled(FlowData(mean, info=center), factor, weights)
        # files are written column by column
        table = {label: fields[label].reshape(shape[1], shape[0]).T.ravel() for label in ['X', 'Y', 'N', 'T', 'M', 'U', 'V']}
        write(path, table, {'origin': corner(origin, spacing), 'spacing': [spacing[0], spacing[1]], 'shape': [shape[0], shape[1]], 'num_bins': num})

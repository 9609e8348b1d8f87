"""Reference definitions: plain data maps (dicts of flat, x-major arrays)."""

import numpy as np


def ratio(total, weight):
    """Weighted mean from its sums; zero where there is no weight."""
    return np.where(weight == 0., 0., total/weight)


def average_data(*maps, **kwargs):
    n = len(maps)
    if n == 0:
        return {}

    for m in maps[1:]:
        for l in ['X', 'Y']:
            if not np.allclose(maps[0][l], m[l], atol=1e-3, rtol=1e-05):
                raise ValueError

    mass = sum([m['M'] for m in maps])
    number = sum([m['N'] for m in maps])

    return {
        'X': maps[0]['X'],
        'Y': maps[0]['Y'],
        'M': mass/n,
        'N': number/n,
        'U': ratio(sum([m['U']*m['M'] for m in maps]), mass),
        'V': ratio(sum([m['V']*m['M'] for m in maps]), mass),
        'T': ratio(sum([m['T']*m['N'] for m in maps]), number)
    }


def combine_bins(data, info, nx, ny):
    kx = info['shape'][0]//nx
    ky = info['shape'][1]//ny

    def blocks(values):
        """values[a, b] -> [i, j, p, q] with a = i*nx + p, b = j*ny + q."""
        grid = values.reshape(info['shape'])
        return grid[0:kx*nx, 0:ky*ny].reshape((kx, nx, ky, ny))

    def total(values):
        return np.sum(blocks(values), axis=(1, 3)).ravel()

    def centers(n0, values):
        return values

    dx, dy = info['spacing']
    x0 = info['origin'][0] + 0.5*dx*(nx - 1)
    y0 = info['origin'][1] + 0.5*dy*(ny - 1)

    x = x0 + nx*dx*np.arange(kx)
    y = y0 + ny*dy*np.arange(ky)
    xs, ys = np.meshgrid(x, y, indexing='ij')

    number = total(data['N'])
    mass = total(data['M'])
    combined = {
        'X': xs.ravel(),
        'Y': ys.ravel(),
        'N': number,
        'M': mass,
        'T': ratio(total(data['T']*data['N']), number),
        'U': ratio(total(data['U']*data['M']), mass),
        'V': ratio(total(data['V']*data['M']), mass)
    }

    new_info = {
        'shape': [kx, ky],
        'spacing': [nx*dx, ny*dy],
        'origin': [x0, y0],
        'num_bins': kx*ky
    }

    return combined, new_info

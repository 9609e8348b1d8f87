"""Reference definitions: flow maps (FlowData objects)."""

import numpy as np


def ratio(total, weight):
    return np.where(weight == 0., 0., total/weight)


def regular(flow, label):
    """Values as grid[i, j] (i along x, j along y)."""
    return np.sort(flow.data, order=['Y', 'X'])[label].reshape(flow.shape[1], flow.shape[0]).T


def downsampled(flow, cx, cy, weights):
    kx = flow.shape[0]//cx
    ky = flow.shape[1]//cy

    def total(grid):
        return np.sum(grid[0:kx*cx, 0:ky*cy].reshape((kx, cx, ky, cy)), axis=(1, 3)).T.ravel()

    dx, dy = flow.spacing
    x0 = flow.origin[0] + 0.5*dx*(cx - 1)
    y0 = flow.origin[1] + 0.5*dy*(cy - 1)

    xs, ys = np.meshgrid(x0 + cx*dx*np.arange(kx), y0 + cy*dy*np.arange(ky))
    data = {'X': xs.ravel(), 'Y': ys.ravel()}
    for label in ['N', 'T', 'M', 'U', 'V']:
        values = regular(flow, label)
        if label in weights:
            weight = regular(flow, weights[label])
            data[label] = ratio(total(values*weight), total(weight))
        else:
            data[label] = total(values)

    return data, (kx, ky), (cx*dx, cy*dy), (x0, y0), kx*ky


def supersampled(flow, factor, weights):
    nx, ny = flow.shape[0]*factor, flow.shape[1]*factor
    dx, dy = flow.spacing[0]/factor, flow.spacing[1]/factor
    x0, y0 = flow.origin

    def fine(grid):
        """grid[j, i] of the original bins in every bin of the finer grid."""
        out = np.zeros((ny, nx))
        for j in range(ny):
            for i in range(nx):
                out[j, i] = grid[i//factor, j//factor]
        return out

    def around(values, how):
        out = np.zeros((ny, nx))
        n = factor - 1
        for j in range(ny):
            for i in range(nx):
                out[j, i] = how(values[max(0, j - n):j + n + 1, max(0, i - n):i + n + 1])
        return out.ravel()

    xs, ys = np.meshgrid(x0 + dx*np.arange(nx), y0 + dy*np.arange(ny))
    data = {'X': xs.ravel(), 'Y': ys.ravel()}
    for label in ['N', 'T', 'M', 'U', 'V']:
        values = fine(regular(flow, label))
        if label in weights:
            weight = fine(regular(flow, weights[label]))
            data[label] = ratio(around(values*weight, np.sum), around(weight, np.sum))
        else:
            data[label] = around(values, np.mean)

    return data, (nx, ny), (dx, dy), (x0, y0), nx*ny

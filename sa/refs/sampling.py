"""Reference definitions: quantities sampled from flow maps.

``flow`` is a FlowData object, ``data`` a record or dict of arrays."""

import numpy as np


def weighted(values, weights):
    return np.sum(values*weights)/np.sum(weights)


def center_of_mass(data, mass, xlabel, ylabel):
    return (weighted(data[xlabel], data[mass]), weighted(data[ylabel], data[mass]))


def inertial_energy(data, mass, u, v):
    return data[mass]*(data[u]**2 + data[v]**2)/2


def flow_angles(data, u, v):
    return np.arctan2(data[v], data[u])*180/np.pi


def mean_angle(data, u, v):
    return np.arctan2(np.sum(data[v]), np.sum(data[u]))*180/np.pi


def weighted_angle(data, u, v, w):
    return np.arctan2(np.sum(data[v]*data[w]), np.sum(data[u]*data[w]))*180/np.pi


def rows(flow, label):
    """grid[j, i]: j along y, i along x."""
    return np.sort(flow.data, order=['Y', 'X'])[label].reshape(flow.shape[1], flow.shape[0])


def grad_x(values, flow, order):
    return np.gradient(values, flow.spacing[0], edge_order=order, axis=1)


def grad_y(values, flow, order):
    return np.gradient(values, flow.spacing[1], edge_order=order, axis=0)


def strain(u, v, w, flow, viscosity):
    ux, uy = grad_x(u*w, flow, 2), grad_y(u*w, flow, 2)
    vx, vy = grad_x(v*w, flow, 2), grad_y(v*w, flow, 2)
    div = ux + vy
    return viscosity*(2*ux*ux + 2*vy*vy - 2*div*div/3 + (uy + vx)*(uy + vx))/(w*w)


def dissipation(flow, viscosity, u, v):
    return strain(rows(flow, u), rows(flow, v), 1., flow, viscosity)


def weighted_dissipation(flow, viscosity, u, v, w):
    return strain(rows(flow, u), rows(flow, v), rows(flow, w), flow, viscosity)


def sorted_fields(flow):
    data = np.sort(flow.data, order=['Y', 'X'])
    return {label: data[label] for label in ['X', 'Y', 'N', 'T', 'M', 'U', 'V']}


def with_dissipation(flow, viscosity):
    data = sorted_fields(flow)
    data['visc'] = weighted_dissipation(flow, viscosity, 'U', 'V', 'M').ravel()
    return data, flow.shape, flow.spacing, flow.origin, flow.num_bins


def with_gradient(flow):
    data = sorted_fields(flow)
    data['grad_rho_x'] = grad_x(rows(flow, 'M'), flow, 1).ravel()
    data['grad_rho_y'] = grad_y(rows(flow, 'M'), flow, 1).ravel()
    return data, flow.shape, flow.spacing, flow.origin, flow.num_bins


def with_evaporation(flow):
    data = sorted_fields(flow)
    mass = rows(flow, 'M')
    data['evaporation'] = (rows(flow, 'U')*grad_x(mass, flow, 1) + rows(flow, 'V')*grad_y(mass, flow, 1)).ravel()
    return data, flow.shape, flow.spacing, flow.origin, flow.num_bins


def plus(data, label, values):
    fields = {l: data[l] for l in ['X', 'Y', 'N', 'T', 'M', 'U', 'V']}
    fields[label] = values
    return fields


def with_speed(data):
    return plus(data, 'flow', np.sqrt(data['U']*data['U'] + data['V']*data['V']))


def with_radial(data, x0, y0):
    angle = np.arctan2(data['Y'] - y0, data['X'] - x0)
    return plus(data, 'radial', data['U']*np.sin(angle) - data['V']*np.cos(angle))

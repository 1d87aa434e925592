"""Reference: spherical harmonic analysis and synthesis, Voronoi areas."""
import numpy as np
import xarray as xr
from scipy.spatial import SphericalVoronoi
from scipy.special import sph_harm_y

from packaging.version import Version
import scipy

DEF = 23
OLD = Version(scipy.__version__) < Version('1.15.0')


def decomposition(data, scale, theta, phi, max_harm=DEF):
    """c[n,m] = w[m] / (area Y00^2) * sum(f dA Y_n^m(colatitude phi, azimuth theta)), w = 1 for m = 0 and 2 otherwise"""
    norm = np.array(1 / (np.sum(scale, axis=(0, 1)) * sph_harm_y(0, 0, 0, 0) ** 2))
    ms, ns, w = [], [], []
    for n in range(max_harm + 1):
        for m in range(n + 1):
            ms.append(m)
            ns.append(n)
            w.append(2 if m != 0 else 1)
    ms, ns = np.expand_dims(ms, axis=(1, 2)), np.expand_dims(ns, axis=(1, 2))
    factor = np.array(w) * norm
    weighted = data * scale
    if isinstance(data, xr.DataArray) and OLD:
        y = xr.DataArray(sph_harm_y(ns, ms, np.expand_dims(phi, axis=0), np.expand_dims(theta, axis=0)), dims=['harmonic', data.dims[0], data.dims[1]])
        axes = (0, 1)
    elif isinstance(data, xr.DataArray):
        factor = xr.DataArray(factor, dims=['harmonic'])
        weighted = xr.DataArray(weighted, dims=data.dims)
        azimuth = xr.DataArray(theta, dims=data.dims)
        colatitude = xr.DataArray(phi, dims=data.dims)
        y = xr.DataArray(sph_harm_y(ns, ms, colatitude, azimuth), dims=['harmonic', data.dims[0], data.dims[1]])
        axes = (0, 1)
    else:
        y = sph_harm_y(ns, ms, np.expand_dims(phi, axis=0), np.expand_dims(theta, axis=0))
        axes = (1, 2)
    return np.sum(weighted * y, axis=axes) * factor


def recomposition(data, theta, phi, max_harm=DEF):
    """f = sum over (n, m) of Re(c) Re(Y) + Im(c) Im(Y)"""
    isxr = isinstance(data, xr.DataArray)
    if isxr:
        data = data.rename({data.dims[0]: 'harmonic'})
        d0, d1 = theta.dims[0], theta.dims[1]
    ms, ns = [], []
    for n in range(max_harm + 1):
        for m in range(n + 1):
            ms.append(m)
            ns.append(n)
    ms, ns = np.expand_dims(ms, axis=(1, 2)), np.expand_dims(ns, axis=(1, 2))
    if isxr and OLD:
        data = np.expand_dims(data, axis=(1, 2))
        y = sph_harm_y(ns, ms, np.expand_dims(phi, axis=0), np.expand_dims(theta, axis=0))
        y = xr.DataArray(y, dims=['harmonic', d0, d1])
    elif isxr:
        y = sph_harm_y(ns, ms, phi.expand_dims(dim='harmonic', axis=0), theta.expand_dims(dim='harmonic', axis=0))
        y = xr.DataArray(y, dims=['harmonic', d0, d1])
    else:
        data = np.expand_dims(data, axis=(1, 2))
        y = sph_harm_y(ns, ms, np.expand_dims(phi, axis=0), np.expand_dims(theta, axis=0))
    out = np.sum(y.real * data.real, axis=0) + np.sum(y.imag * data.imag, axis=0)
    return out.real


def scale_voronoi(theta, phi):
    """areas of the Voronoi cells of the points on the unit sphere: azimuth theta, colatitude phi"""
    dims = None
    if isinstance(theta, xr.DataArray):
        dims = theta.dims
        theta, phi = theta.to_numpy(), phi.to_numpy()
    az, co = theta.ravel(), phi.ravel()
    pts = np.zeros((len(co), 3))
    pts[:, 0] = np.sin(co) * np.sin(az)
    pts[:, 1] = np.sin(co) * np.cos(az)
    pts[:, 2] = np.cos(co)
    area = np.array(SphericalVoronoi(pts, radius=1.0, center=np.array([0, 0, 0])).calculate_areas()).reshape(theta.shape)
    if dims is not None:
        area = xr.DataArray(area, dims=dims)
    return area

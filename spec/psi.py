"""Reference: zonal mean meridional streamfunction on unstructured grids."""
import numpy as np
import xarray as xr
import uxarray as ux
import geocat.comp as gc
from geocat.comp.gc_util import _find_var, _find_optional_var

COS = 'cos of degrees'


def _psi(uxds, lat, v, ps, plev, hyam, hybm, cosine):
    if not v:
        v = _find_var(uxds, standard_name='northward_wind', long_name='Meridional wind', possible_names=['V', 'vs', 'meridional_wind'])
    if not ps:
        ps = _find_var(uxds, standard_name='surface_air_pressure', long_name='Surface pressure',
                       possible_names=['ps', 'p_surface', 'surface_pressure', 'pressure_surface'])
    if not hyam:
        hyam = _find_optional_var(uxds, long_name='hybrid A coefficient at layer midpoints', possible_names=['hyam', 'hya', 'hybrid_A_midpoints'],
                                  description='hybrid coordinate')
    if not hybm:
        hybm = _find_optional_var(uxds, long_name='hybrid B coefficient at layer midpoints', possible_names=['hybm', 'hyb', 'hybrid_B_midpoints'],
                                  description='hybrid coordinate')
    if not plev:
        plev = _find_optional_var(uxds, standard_name='air_pressure', possible_names=['plev', 'pressure_lev', 'pressure_levels'],
                                  description='pressure coordinate')
    if plev and plev in uxds[v].dims:
        wind = uxds[v]
    elif hyam and hybm:
        wind = ux.UxDataArray(gc.interp_hybrid_to_pressure(uxds[v], uxds[ps], uxds[hyam], uxds[hybm]), uxgrid=uxds.uxgrid)
        plev = 'plev'
    else:
        raise AttributeError("neither pressure levels nor hybrid coefficients")
    vbar = wind.zonal_mean(lat=lat)
    vbar['plev'] = wind[plev]
    psbar = uxds[ps].zonal_mean(lat=lat)
    if np.isnan(psbar).any():
        raise ValueError("NaN")
    if (uxds[ps] <= 0).any():
        raise ValueError("negative")
    p = vbar.plev
    lats = psbar.latitudes
    dp = xr.DataArray(gc.delta_pressure(p, psbar), dims=['time', 'latitudes', 'plev'], coords={'plev': p, 'latitudes': lats})
    layers = vbar * dp
    if p.isel(plev=0) < p.isel(plev=-1):
        flux = layers.cumsum(dim='plev')
    else:
        flux = layers.isel(plev=slice(None, None, -1)).cumsum(dim='plev').isel(plev=slice(None, None, -1))
    c = np.cos(lats) if cosine is COS else np.cos(np.deg2rad(lats))
    return flux * (2 * np.pi * 6378137 * c / 9.80665)


def zonal_meridional_psi(uxds, lat=(-90, 90, 10), meridional_wind_varname=None, surface_air_pressure_varname=None, plev_coordname=None,
                         hyam_coordname=None, hybm_coordname=None):
    return _psi(uxds, lat, meridional_wind_varname, surface_air_pressure_varname, plev_coordname, hyam_coordname, hybm_coordname, 'deg')


def psi_cos_degrees(uxds, lat=(-90, 90, 10), meridional_wind_varname=None, surface_air_pressure_varname=None, plev_coordname=None,
                    hyam_coordname=None, hybm_coordname=None):
    """recorded defect F15: the latitudes, in degrees, are passed to cos as radians"""
    return _psi(uxds, lat, meridional_wind_varname, surface_air_pressure_varname, plev_coordname, hyam_coordname, hybm_coordname, COS)


def zonal_mpsi(uxds, lat=(-90, 90, 10), meridional_wind_varname=None, surface_air_pressure_varname=None, plev_coordname=None,
               hyam_coordname=None, hybm_coordname=None):
    return gc.zonal_meridional_psi(uxds, lat=lat, meridional_wind_varname=meridional_wind_varname,
                                   surface_air_pressure_varname=surface_air_pressure_varname, plev_coordname=plev_coordname,
                                   hyam_coordname=hyam_coordname, hybm_coordname=hybm_coordname)

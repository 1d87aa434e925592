"""Reference: FFT filtering along one axis."""
import math
import numpy as np
import xarray as xr


def _filter(signal, frequency, low, high, axis, mode):
    x = np.swapaxes(np.asarray(signal), axis, 0)
    n = len(x)
    step = frequency / n
    lo = math.floor(low / step)
    hi = math.ceil(high / step)
    f = np.fft.fft(x, axis=0)
    if mode == 'low':
        # keep the bins below lo and their mirror images
        if lo > 1:
            f[lo:1 - lo] = 0
        else:
            f[lo:] = 0
    elif mode == 'high':
        f[:hi] = 0
        if hi > 1:
            f[1 - hi:] = 0
    elif mode == 'pass':
        f[:lo] = 0
        if hi > 1:
            f[hi:1 - hi] = 0
        else:
            f[hi:] = 0
        if lo > 1:
            f[1 - lo:] = 0
    elif mode == 'block':
        f[lo:hi] = 0
        if lo > 1 and hi > 1:
            f[1 - hi:1 - lo] = 0
        elif hi > 1:
            f[1 - hi:] = 0
    y = np.swapaxes(np.real(np.fft.ifft(f, axis=0)), axis, 0)
    if isinstance(signal, xr.DataArray):
        out = signal.copy()
        out.data = y
        return out
    return y


def fourier_filter(signal, frequency, cutoff_frequency_low=0, cutoff_frequency_high=0, time_axis=0,
                   low_pass=False, high_pass=False, band_pass=False, band_block=False):
    mode = 'none'
    if low_pass:
        mode = 'low'
    if high_pass:
        mode = 'high'
    if band_pass:
        mode = 'pass'
    if band_block:
        mode = 'block'
    return _filter(signal, frequency, cutoff_frequency_low, cutoff_frequency_high, time_axis, mode)


def fourier_low_pass(signal, frequency, cutoff_frequency_low, time_axis=0):
    return _filter(signal, frequency, cutoff_frequency_low, 0, time_axis, 'low')


def fourier_high_pass(signal, frequency, cutoff_frequency_high, time_axis=0):
    return _filter(signal, frequency, 0, cutoff_frequency_high, time_axis, 'high')


def fourier_band_pass(signal, frequency, cutoff_frequency_low, cutoff_frequency_high, time_axis=0):
    return _filter(signal, frequency, cutoff_frequency_low, cutoff_frequency_high, time_axis, 'pass')


def fourier_band_block(signal, frequency, cutoff_frequency_low, cutoff_frequency_high, time_axis=0):
    return _filter(signal, frequency, cutoff_frequency_low, cutoff_frequency_high, time_axis, 'block')

"""Reference: longshore transport (CERC), runup (Poate et al. 2016), overtopping."""
import numpy as np


def longShoreTransport(ShoreY, Dx, WavePower, WavePeriod, Wlen_h, EDir_h, PhysicalPars):
    n = ShoreY.shape[0]
    g = PhysicalPars['Gravity']
    # depth and celerity at breaking, celerity at the wave data depth (linear theory)
    h_b = (PhysicalPars['BreakerCoef'] * WavePower) ** 0.4
    c_b = np.sqrt(g * h_b)
    c_h = g * WavePeriod / (2 * np.pi) * np.tanh(2 * np.pi * PhysicalPars['WaveDataDepth'] / Wlen_h)
    lst = np.zeros(n - 1)
    for i in range(n - 1):
        rel = EDir_h - np.arctan((ShoreY[i, 0] - ShoreY[i + 1, 0]) / Dx)
        power = WavePower
        if rel < -np.pi / 2 or rel > np.pi / 2:
            power = 0
        # Snell: sin(a_b) = sin(a_h) * c_b / c_h
        lst[i] = -PhysicalPars['K2coef'] * power * np.cos(rel) * np.sin(np.arcsin(np.sin(rel) * (c_b / c_h)))
    return lst


def runup(WavePeriod, Hs_offshore, BeachSlope):
    return 0.49 * np.sqrt(BeachSlope) * WavePeriod * Hs_offshore


def overtopping(Runup, SeaLevel, ShoreY, ShoreZ, PhysicalPars):
    potential = Runup + SeaLevel - ShoreZ[:, 0]
    potential = np.where(potential < 0, 0, potential)
    flux = PhysicalPars['OT_coef'] * potential ** PhysicalPars['OT_exp']
    assert np.all(flux >= 0)
    outlet = np.logical_not(np.isnan(ShoreY[:, 1]))
    width = np.where(outlet, ShoreY[:, 0] - ShoreY[:, 1], np.maximum(ShoreY[:, 0] - ShoreY[:, 3], 0.001))
    over = ShoreZ[:, 0] > width * PhysicalPars['BarRatSlope'] + PhysicalPars['BarRatInt']
    # nothing to wash over into behind the barrier
    over = np.where(~outlet & (ShoreY[:, 3] <= ShoreY[:, 4]), False, over)
    # pinched outlet: everything goes into the channel
    over = np.where(outlet & (ShoreY[:, 1] <= ShoreY[:, 2]), True, over)
    return flux, over

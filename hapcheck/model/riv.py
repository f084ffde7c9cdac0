"""Reference: river hydraulics and bed load."""
import numpy as np
from scipy import linalg


def solveSteady(ChanDx, ChanElev, ChanWidth, Roughness, Qin, DsWL, NumericalPars, Grav=9.81):
    """Standard step backwater: energy balance with friction averaged between sections."""
    n = ChanElev.size
    beta = NumericalPars['Beta']
    crit = (Qin ** 2 / (Grav * ChanWidth ** 2)) ** (1 / 3)
    dep = np.zeros(n)
    vel = np.zeros(n)
    head = np.zeros(n)
    fric = np.zeros(n)
    dep[-1] = np.maximum(DsWL - ChanElev[-1], crit[-1])
    vel[-1] = Qin / (ChanWidth[-1] * dep[-1])
    head[-1] = ChanElev[-1] + dep[-1] + beta * vel[-1] ** 2 / (2 * Grav)
    fric[-1] = (Roughness * vel[-1]) ** 2 / dep[-1] ** (4 / 3)
    for i in range(n - 2, -1, -1):
        dep[i] = ChanElev[i + 1] + dep[i + 1] + fric[i + 1] * ChanDx[i] - ChanElev[i]
        a = beta * Qin ** 2 / (2 * Grav * ChanWidth[i] ** 2)
        b = ChanDx[i] * Qin ** 2 * Roughness ** 2 / (2 * ChanWidth[i] ** 2)
        c = ChanElev[i] - head[i + 1] - fric[i + 1] * ChanDx[i] / 2
        err = dep[i] + a / dep[i] ** 2 - b * dep[i] ** (-10 / 3) + c
        count = 0
        while np.abs(err) > NumericalPars['ErrTol']:
            slope = 1 - 2 * a * dep[i] ** (-3) + (10 / 3) * b * dep[i] ** (-13 / 3)
            dep[i] = dep[i] - err / slope
            err = dep[i] + a / dep[i] ** 2 - b * dep[i] ** (-10 / 3) + c
            count += 1
            assert count < NumericalPars['MaxIt']
        if dep[i] < crit[i]:
            dep[i] = crit[i]
        vel[i] = Qin / (ChanWidth[i] * dep[i])
        head[i] = ChanElev[i] + dep[i] + beta * vel[i] ** 2 / (2 * Grav)
        fric[i] = (Roughness * vel[i]) ** 2 / dep[i] ** (4 / 3)
    return dep, vel


def storeHydraulics(ChanDep, ChanVel, OnlineLagoon, OutletChanIx, ChanFlag, LagoonElev, Closed):
    n = LagoonElev.size
    wl = LagoonElev.copy()
    wl[OnlineLagoon] = LagoonElev[OnlineLagoon] + ChanDep[ChanFlag == 1]
    first = np.min(OnlineLagoon)
    last = np.max(OnlineLagoon)
    # still water level extends over the offline lagoon
    wl[:first] = wl[first]
    wl[last + 1:] = wl[last]
    vel = np.full(n, np.nan)
    vel[OnlineLagoon] = ChanVel[ChanFlag == 1]
    odep = np.full(n, np.nan)
    ovel = np.full(n, np.nan)
    edep = np.full(2, np.nan)
    evel = np.full(2, np.nan)
    if not Closed:
        odep[OutletChanIx] = ChanDep[ChanFlag == 2]
        ovel[OutletChanIx] = ChanVel[ChanFlag == 2]
        ends = (ChanFlag == 3) | (ChanFlag == 4)
        edep = ChanDep[ends]
        evel = ChanVel[ends]
    return wl, vel, odep, ovel, edep, evel


def calcBedload(z, B, h, V, dx, PhysicalPars, Psi):
    rho = PhysicalPars['RhoRiv']
    rhos = PhysicalPars['RhoSed']
    g = PhysicalPars['Gravity']
    d = PhysicalPars['GrainSize']
    n = z.size
    # Shields stress from the grain friction slope
    tau = rho * g * h * (V ** 2 * PhysicalPars['GrainRoughness'] ** 2 / h ** (4 / 3))
    shields = tau / ((rhos - rho) * g * d)
    excess = np.maximum(shields - PhysicalPars['CritShieldsStress'], 0.0)
    qs = PhysicalPars['MPM_coef'] * excess ** PhysicalPars['MPM_exp'] * B * np.sqrt((rhos / rho - 1) * g * d ** 3) \
        / (1 - PhysicalPars['VoidRatio'])
    qs = np.where(V < 0, -qs, qs)
    out = np.zeros(qs.size - 1)
    for i in range(qs.size - 1):
        out[i] = (1 - Psi) * qs[i] + Psi * qs[i + 1]
    return out


def storeBedload(Bedload, NTransects, OnlineLagoon, OutletChanIx, ChanFlag, Closed):
    flag = ChanFlag[:-1]
    lag = np.zeros(NTransects)
    outlet = np.zeros(NTransects)
    if Closed:
        lag[OnlineLagoon[:-1]] = Bedload[flag == 1]
        end = 0.0
    else:
        lag[OnlineLagoon] = Bedload[flag == 1]
        outlet[OutletChanIx] = Bedload[flag == 2]
        end = Bedload[flag == 3]
    return lag, outlet, end


def solveFullPreissmann(z, B, LagArea, LagLen, Closed, h, V, dx, dt, Q_Ts, DsWl_Ts, NumericalPars, PhysicalPars):
    """Preissmann four-point scheme solved with Newton's method.

    mass:     d/dt (Be h) + d/dx (B h V) + seepage = 0
    momentum: d/dt (A V) + d/dx (Beta A V|V|) + g A (dh/dx - S0 + Sf) = 0
    """
    g = PhysicalPars['Gravity']
    man = PhysicalPars['RoughnessManning']
    perm = PhysicalPars['BarrierPermeability']
    theta = NumericalPars['Theta']
    beta = NumericalPars['Beta']
    tol = NumericalPars['ErrTol']
    maxit = NumericalPars['MaxIt']
    sec = dt.total_seconds()
    n = z.size
    slope = (z[:-1] - z[1:]) / dx
    h[h <= 0] = 0.0001
    V[V == 0] = 0.0001
    # plan area of each node per unit of reach
    span = np.zeros(n)
    span[0] = dx[0]
    span[-1] = dx[-1]
    span[1:-1] = 0.5 * (dx[1:] + dx[:-1])
    be = LagArea / span + B
    seep = (LagLen[1:] + LagLen[:-1]) / dx / 2
    r = sec / dx
    level = z[-1] + h[-1]
    area = B * h
    fric = man ** 2 * V * np.abs(V) * h ** (-4 / 3)
    for step in range(len(Q_Ts)):
        inflow = Q_Ts[step]
        level_old = level
        level = DsWl_Ts[step]
        # what the previous time level contributes
        q = V * area
        mom = np.abs(V) * V * area
        up_h = h[:-1]
        dn_h = h[1:]
        store = dn_h * be[1:] + up_h * be[:-1]
        old_mass = store - 2 * r * (1 - theta) * (q[1:] - q[:-1]) \
            - seep * sec * perm * (z[1:] + z[:-1] - 2 * theta * level + (1 - theta) * (dn_h + up_h - 2 * level_old))
        old_mom = q[:-1] + q[1:] - 2 * beta * r * (1 - theta) * (mom[1:] - mom[:-1]) \
            - g * r * (1 - theta) * (area[1:] + area[:-1]) * (dn_h - up_h) \
            + g * sec * (1 - theta) * (area[1:] * (slope - fric[1:]) + area[:-1] * (slope - fric[:-1]))
        it = 0
        while it < maxit:
            res = np.zeros(2 * n)
            q = V * area
            mom = np.abs(V) * V * area
            res[0] = q[0] - inflow
            res[1:-1:2] = h[1:] * be[1:] + h[:-1] * be[:-1] + 2 * r * theta * (q[1:] - q[:-1]) \
                + seep * (sec * perm * theta) * (h[1:] + h[:-1]) - old_mass
            res[2:-1:2] = q[:-1] + q[1:] + 2 * beta * r * theta * (mom[1:] - mom[:-1]) \
                + g * r * theta * (area[1:] + area[:-1]) * (h[1:] - h[:-1]) \
                - g * sec * theta * (area[1:] * (slope - fric[1:]) + area[:-1] * (slope - fric[:-1])) - old_mom
            if Closed:
                res[-1] = h[-1] * V[-1]
            else:
                res[-1] = z[-1] + h[-1] - level
            band = np.zeros((5, 2 * n))
            band[2, 0] = V[0] * B[0]
            band[1, 1] = area[0]
            # mass: upstream depth, upstream velocity, downstream depth, downstream velocity
            band[3, 0:-2:2] = be[:-1] - 2 * r * theta * V[:-1] * B[:-1] + seep * sec * perm * theta
            band[2, 1:-2:2] = -2 * r * theta * area[:-1]
            band[1, 2::2] = be[1:] + 2 * r * theta * V[1:] * B[1:] + seep * sec * perm * theta
            band[0, 3::2] = 2 * r * theta * area[1:]
            # momentum, same order
            band[4, 0:-2:2] = V[:-1] * B[:-1] - 2 * beta * r * theta * np.abs(V[:-1]) * V[:-1] * B[:-1] \
                + g * theta * r * (B[:-1] * (h[1:] - h[:-1]) - (area[1:] + area[:-1])) \
                - g * sec * theta * B[:-1] * (slope + fric[:-1] / 3)
            band[3, 1:-2:2] = area[:-1] - 4 * beta * r * theta * np.abs(V[:-1]) * area[:-1] \
                + 2 * g * sec * theta * area[:-1] * fric[:-1] / V[:-1]
            band[2, 2::2] = V[1:] * B[1:] + 2 * beta * r * theta * np.abs(V[1:]) * V[1:] * B[1:] \
                + g * theta * r * (B[1:] * (h[1:] - h[:-1]) + area[1:] + area[:-1]) \
                - g * sec * theta * B[1:] * (slope + fric[1:] / 3)
            band[1, 3::2] = area[1:] + 4 * beta * r * theta * np.abs(V[1:]) * area[1:] \
                + 2 * g * sec * theta * area[1:] * fric[1:] / V[1:]
            if Closed:
                band[3, -2] = V[-1]
                band[2, -1] = h[-1]
            else:
                band[3, -2] = 1.0
                band[2, -1] = 0.0
            try:
                change = linalg.solve_banded([2, 2], band, res)
            except linalg.LinAlgError:
                band = band + (np.random.RandomState(0).random_sample(band.shape) * 1e-7 - 5e-8)
                change = linalg.solve_banded([2, 2], band, res)
            h -= change[::2]
            V -= change[1::2]
            h[h <= 0] = 0.0001
            V[V == 0] = 0.0001
            area = B * h
            fric = man ** 2 * V * np.abs(V) * h ** (-4 / 3)
            if np.all(np.abs(change) < tol):
                break
            it += 1
        if it >= maxit:
            dep, vel = solveSteady(dx, z, B, man, inflow, level, NumericalPars, g)
            h[:] = dep
            V[:] = vel
            area = B * h
            fric = man ** 2 * V * np.abs(V) * h ** (-4 / 3)


def assembleChannel(ShoreX, ShoreY, ShoreZ, OutletEndX, OutletEndWidth, OutletEndElev, Closed, RiverElev, RivDep, RivVel, LagoonWL, LagoonVel, OutletDep, OutletVel, OutletEndDep, OutletEndVel, Dx, PhysicalPars):
    X0Ix = np.where(ShoreX == 0)[0][0]
    if OutletEndDep.size == 1:
        OutletEndDep = np.append(OutletEndDep, np.nan)
    if OutletEndVel.size == 1:
        OutletEndVel = np.append(OutletEndVel, np.nan)
    if split(not Closed):
        if split(OutletEndX[0] < OutletEndX[1]):
            OutletChanIx = np.where(np.logical_and(OutletEndX[0] <= ShoreX, ShoreX <= OutletEndX[1]))[0]
        else:
            OutletChanIx = np.flipud(np.where(np.logical_and(OutletEndX[1] <= ShoreX, ShoreX <= OutletEndX[0]))[0])
        OutletWidth = ShoreY[OutletChanIx, 1] - ShoreY[OutletChanIx, 2]
        OutletWidth[np.isnan(OutletWidth)] = 0.0
        if np.any(OutletWidth <= PhysicalPars['MinOutletWidth']) | (OutletEndWidth <= PhysicalPars['MinOutletWidth']):
            Closed = True
            for ClosedIx in OutletChanIx[OutletWidth <= PhysicalPars['MinOutletWidth']]:
                pass
            if OutletEndWidth <= PhysicalPars['MinOutletWidth']:
                pass
            OutletChanIx = np.empty(0)
        elif np.min(OutletWidth) < PhysicalPars['MinOutletWidth'] * 3:
            pass
    else:
        OutletChanIx = np.empty(0)
    LagoonWidth = ShoreY[:, 3] - ShoreY[:, 4]
    assert LagoonWidth[X0Ix] > 0, 'Zero/negtive lagoon width at X=0'
    assert np.all(~np.isnan(LagoonWidth)), 'NaN values in lagoon width at X = %s' % ShoreX[np.isnan(LagoonWidth)]
    if split(OutletEndX[0] == 0):
        if split(Closed):
            OnlineLagoon = np.arange(X0Ix, np.where(LagoonWidth > 0)[0][-1] + 1)
            EndArea = 0
            EndLen = 0
        else:
            OnlineLagoon = np.array([X0Ix])
            EndArea = np.nansum(LagoonWidth[ShoreX > OutletEndX[0]] * Dx)
            EndLen = np.nansum((LagoonWidth[ShoreX > OutletEndX[0]] > 0) * Dx)
        StartArea = np.nansum(LagoonWidth[:X0Ix] * Dx)
        StartLen = np.nansum((LagoonWidth[:X0Ix] > 0) * Dx)
    elif split(OutletEndX[0] > 0):
        if split(Closed):
            OnlineLagoon = np.arange(X0Ix, np.where(LagoonWidth > 0)[0][-1] + 1)
            EndArea = 0
            EndLen = 0
        else:
            OnlineLagoon = np.arange(X0Ix, np.where(ShoreX < OutletEndX[0])[0][-1] + 1)
            EndArea = np.nansum(LagoonWidth[ShoreX > OutletEndX[0]] * Dx)
            EndLen = np.nansum((LagoonWidth[ShoreX > OutletEndX[0]] > 0) * Dx)
        StartArea = np.nansum(LagoonWidth[:X0Ix] * Dx)
        StartLen = np.nansum((LagoonWidth[:X0Ix] > 0) * Dx)
    else:
        if split(Closed):
            OnlineLagoon = np.arange(X0Ix, np.where(LagoonWidth > 0)[0][0] - 1, -1)
            EndArea = 0
            EndLen = 0
        else:
            OnlineLagoon = np.arange(X0Ix, np.where(ShoreX > OutletEndX[0])[0][0] - 1, -1)
            EndArea = np.nansum(LagoonWidth[ShoreX < OutletEndX[0]] * Dx)
            EndLen = np.nansum((LagoonWidth[ShoreX < OutletEndX[0]] > 0) * Dx)
        StartArea = np.nansum(LagoonWidth[X0Ix + 1:] * Dx)
        StartLen = np.nansum((LagoonWidth[X0Ix + 1:] > 0) * Dx)
    assert OnlineLagoon.size > 0, 'No online transects in lagoon'
    if split(np.any(LagoonWidth[OnlineLagoon] < PhysicalPars['MinOutletWidth'])):
        LagCloseIx = np.where(LagoonWidth[OnlineLagoon] < PhysicalPars['MinOutletWidth'])[0][0]
        if split(not Closed):
            pass
            Closed = True
            OutletChanIx = np.empty(0)
        EndArea += np.nansum(LagoonWidth[OnlineLagoon[LagCloseIx:]] * Dx)
        EndLen += np.nansum((LagoonWidth[OnlineLagoon[LagCloseIx:]] > 0) * Dx)
        OnlineLagoon = OnlineLagoon[:LagCloseIx]
    assert np.abs(OnlineLagoon[-1] - OnlineLagoon[0]) == OnlineLagoon.size - 1, 'Gap in online lagoon (possibly split lagoon and closed?) need to handle this. OnlineLagoon = %s' % OnlineLagoon
    assert np.all(LagoonWidth[OnlineLagoon] > 0), 'Lagoon closure in assembleChannel at X = %f' % ShoreX[OnlineLagoon[LagoonWidth[OnlineLagoon] <= 0][0]]
    if split(Closed):
        ChanDx = np.full(RiverElev.size + OnlineLagoon.size - 1, Dx)
        ChanFlag = np.concatenate([np.full(RiverElev.size, 0), np.full(OnlineLagoon.size, 1)])
        ChanElev = np.concatenate([RiverElev, ShoreZ[OnlineLagoon, 3]])
        ChanWidth = np.concatenate([np.full(RiverElev.size, PhysicalPars['RiverWidth']), LagoonWidth[OnlineLagoon]])
    else:
        ChanDx = np.full(RiverElev.size + OnlineLagoon.size + OutletChanIx.size + 1, Dx)
        if split(OutletEndX[0] < OutletEndX[1]):
            ChanDx[-2] += OutletEndX[1] % Dx
        else:
            ChanDx[-2] += Dx - OutletEndX[1] % Dx
        ChanFlag = np.concatenate([np.full(RiverElev.size, 0), np.full(OnlineLagoon.size, 1), np.full(OutletChanIx.size, 2), [3, 4]])
        ChanElev = np.concatenate([RiverElev, ShoreZ[OnlineLagoon, 3], ShoreZ[OutletChanIx, 1], [OutletEndElev, min(PhysicalPars['MaxOutletElev'], OutletEndElev)]])
        ChanWidth = np.concatenate([np.full(RiverElev.size, PhysicalPars['RiverWidth']), LagoonWidth[OnlineLagoon], OutletWidth, np.full(2, OutletEndWidth)])
    LagArea = np.zeros(ChanElev.size)
    LagArea[RiverElev.size] = StartArea
    LagArea[RiverElev.size + OnlineLagoon.size - 1] += EndArea
    LagLen = (ChanFlag == 1) * Dx
    LagLen[RiverElev.size] += StartLen
    LagLen[RiverElev.size + OnlineLagoon.size - 1] += EndLen
    if split(Closed):
        ChanDep = np.concatenate([RivDep, LagoonWL[OnlineLagoon] - ShoreZ[OnlineLagoon, 3]])
        ChanVel = np.concatenate([RivVel, LagoonVel[OnlineLagoon]])
        ChanVel[-1] = 0.0
    else:
        ChanDep = np.concatenate([RivDep, LagoonWL[OnlineLagoon] - ShoreZ[OnlineLagoon, 3], OutletDep[OutletChanIx], OutletEndDep])
        ChanVel = np.concatenate([RivVel, LagoonVel[OnlineLagoon], OutletVel[OutletChanIx], OutletEndVel])
    DepNan = np.isnan(ChanDep)
    if np.any(DepNan):
        pass
        ChanDep[DepNan] = np.interp(np.where(DepNan)[0], np.where(~DepNan)[0], ChanDep[~DepNan])
    VelNan = np.isnan(ChanVel)
    if np.any(VelNan):
        pass
        ChanQ = ChanDep * ChanVel
        ChanVel[VelNan] = np.interp(np.where(VelNan)[0], np.where(~VelNan)[0], ChanQ[~VelNan]) / ChanDep[VelNan]
    assert not np.any(ChanWidth <= 0), 'Outlet width <= 0 in one or more cross-sections after assembleChannel'
    assert not np.any(np.isnan(ChanWidth)), 'NaN values in ChanWidth after assembleChannel'
    assert not np.any(np.isnan(ChanElev)), 'NaN values in ChanElev after assembleChannel'
    assert not np.any(np.isnan(ChanVel)), 'NaN values in ChanVel after assembleChannel'
    assert not np.any(np.isnan(ChanDep)), 'NaN values in ChanDep after assembleChannel'
    assert OnlineLagoon.size == sum(ChanFlag == 1), 'Missmatch between length of online lagoon in "OnlineLagoon" (%i) and "ChanFlag" (%i)' % (OnlineLagoon.size, sum(ChanFlag[:-1] == 1))
    return (ChanDx, ChanElev, ChanWidth, LagArea, LagLen, ChanDep, ChanVel, OnlineLagoon, OutletChanIx, ChanFlag, Closed)

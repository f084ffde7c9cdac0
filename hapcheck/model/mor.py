"""Reference model of mor."""
import numpy as np
import logging

def updateMorphology(ShoreX, ShoreY, ShoreZ, OutletEndX, OutletEndWidth, OutletEndElev, RiverElev, OnlineLagoon, OutletChanIx, LagoonWL, OutletDep, ChanWidth, ChanDep, ChanDx, ChanFlag, Closed, LST, Bedload, CST_tot, OverwashProp, MorDt, PhysicalPars, TimePars, NumericalPars):
    stage('P37 P30 P32')
    Dx = NumericalPars['Dx']
    X0Ix = np.where(ShoreX == 0)[0][0]
    if not Closed:
        OutletRbShoreIx = np.where(OutletEndX[1] < ShoreX)[0][0]
    ShorefaceHeight = PhysicalPars['ClosureDepth'] + ShoreZ[:, 0]
    OutletPresent = ~np.isnan(ShoreY[:, 1])
    LagoonPresent = ShoreY[:, 3] > ShoreY[:, 4]
    LagoonOpen = ShoreY[:, 3] - ShoreY[:, 4] > PhysicalPars['MinOutletWidth']
    WaterLevel = np.full(ShoreX.size, -9999.9)
    WaterLevel[LagoonPresent] = LagoonWL[LagoonPresent]
    if not Closed:
        WaterLevel[OutletChanIx] = OutletDep[OutletChanIx] + ShoreZ[OutletChanIx, 1]
    assert not np.any(np.isnan(WaterLevel)), 'NaN value(s) in WaterLevel at X = %s' % ShoreX[np.isnan(WaterLevel)]
    stage('P34 P39')
    CrestWidth = ShoreY[:, 0] - ShoreY[:, 3]
    CrestWidth[OutletPresent] = ShoreY[OutletPresent, 0] - ShoreY[OutletPresent, 1]
    assert np.all(CrestWidth > 0), 'Negative CrestWidth at the start of updateMorphology. Negative at X = %s' % ShoreX[CrestWidth <= 0]
    BackBarHeight = ShoreZ[:, 0] - ShoreZ[:, 3]
    BackBarHeight[OutletPresent] = ShoreZ[OutletPresent, 0] - ShoreZ[OutletPresent, 1]
    assert np.all(BackBarHeight > 0), 'Negative BackBarHeight at the start of updateMorphology'
    stage('P30')
    ShoreYChangeRate = np.zeros(ShoreY.shape)
    ShoreZChangeRate = np.zeros(ShoreZ.shape)
    OutletEndWideningRate = 0.0
    OutletEndXMoveRate = 0.0
    if Closed:
        DVolRate = Bedload - np.concatenate([Bedload[1:], [0]])
        AspectRatio = ChanWidth[1:] / ChanDep[1:]
        RivXS = ChanFlag[1:] == 0
        LagXS = ChanFlag[1:] == 1
    else:
        DVolRate = Bedload[:-1] - Bedload[1:]
        AspectRatio = ChanWidth[1:-1] / ChanDep[1:-1]
        RivXS = ChanFlag[1:-1] == 0
        LagXS = ChanFlag[1:-1] == 1
        OutXS = ChanFlag[1:-1] == 2
        OutEndXS = ChanFlag[1:-1] == 3
    TooWide = AspectRatio > PhysicalPars['WidthDepthRatio']
    EroVolRate = -np.minimum(DVolRate, 0.0)
    BedEroRate = EroVolRate * TooWide
    BankEroRate = EroVolRate * np.logical_not(TooWide)
    BedDepRate = np.maximum(DVolRate, 0.0)
    LagoonBankElev = ShoreZ[:, 0].copy()
    LagoonBankElev[OutletPresent] = ShoreZ[OutletPresent, 2]
    RivBedAggRate = (BedDepRate[RivXS] - EroVolRate[RivXS]) / (PhysicalPars['RiverWidth'] * Dx)
    ShoreZChangeRate[OnlineLagoon, 3] += (BedDepRate[LagXS] - BedEroRate[LagXS]) / ((ShoreY[OnlineLagoon, 3] - ShoreY[OnlineLagoon, 4]) * Dx)
    if not Closed:
        ShoreZChangeRate[OutletChanIx, 1] += (BedDepRate[OutXS] - BedEroRate[OutXS]) / ((ShoreY[OutletChanIx, 1] - ShoreY[OutletChanIx, 2]) * Dx)
        OutletEndAggRate = (BedDepRate[OutEndXS] - BedEroRate[OutEndXS]) / (OutletEndWidth * Dx)
    else:
        OutletEndAggRate = 0.0
    ShoreYChangeRate[OnlineLagoon, 3] += BankEroRate[LagXS] / 2 / ((LagoonBankElev[OnlineLagoon] - ShoreZ[OnlineLagoon, 3]) * Dx)
    ShoreYChangeRate[OnlineLagoon, 4] -= BankEroRate[LagXS] / 2 / ((PhysicalPars['BackshoreElev'] - ShoreZ[OnlineLagoon, 3]) * Dx)
    if not Closed:
        ShoreYChangeRate[OutletChanIx, 1] += BankEroRate[OutXS] / 2 / ((ShoreZ[OutletChanIx, 0] - ShoreZ[OutletChanIx, 1]) * Dx)
        ShoreYChangeRate[OutletChanIx, 2] -= BankEroRate[OutXS] / 2 / ((ShoreZ[OutletChanIx, 2] - ShoreZ[OutletChanIx, 1]) * Dx)
        OutletEndWideningRate += BankEroRate[OutEndXS] / ((PhysicalPars['BeachTopElev'] - OutletEndElev) * PhysicalPars['SpitWidth'])
        if OutletEndX[0] < OutletEndX[1]:
            OutletEndXMoveRate += OutletEndWideningRate / 2 * PhysicalPars['OutletBankEroFac']
        elif OutletEndX[0] > OutletEndX[1]:
            OutletEndXMoveRate -= OutletEndWideningRate / 2 * PhysicalPars['OutletBankEroFac']
        BedloadToShoreRate = Dx * Bedload[-1] / PhysicalPars['OutletSedSpreadDist'] * np.maximum(1 - np.abs(ShoreX - OutletEndX[1]) / PhysicalPars['OutletSedSpreadDist'], 0.0)
        ShoreYChangeRate[:, 0] += BedloadToShoreRate / (ShorefaceHeight * Dx)
    stage('P32')
    ShoreYChangeRate[1:-1, 0] += (LST[:-1] - LST[1:]) / (ShorefaceHeight[1:-1] * Dx)
    if not Closed:
        if LST[OutletRbShoreIx - 1] > 0:
            ShoreYChangeRate[OutletRbShoreIx, 0] -= LST[OutletRbShoreIx - 1] / (ShorefaceHeight[OutletRbShoreIx] * Dx)
            WidthReductionRate = LST[OutletRbShoreIx - 1] / ((PhysicalPars['BeachTopElev'] - OutletEndElev) * PhysicalPars['SpitWidth'])
            OutletEndWideningRate -= WidthReductionRate
            OutletEndXMoveRate += WidthReductionRate / 2
        else:
            ShoreYChangeRate[OutletRbShoreIx - 1, 0] += LST[OutletRbShoreIx - 1] / (ShorefaceHeight[OutletRbShoreIx - 1] * Dx)
            WidthReductionRate = -LST[OutletRbShoreIx - 1] / ((PhysicalPars['BeachTopElev'] - OutletEndElev) * PhysicalPars['SpitWidth'])
            OutletEndWideningRate -= WidthReductionRate
            OutletEndXMoveRate -= WidthReductionRate / 2
    stage('P34')
    ShoreZChangeRate[:, 0] += (1 - OverwashProp) * CST_tot / CrestWidth
    ShoreYChangeRate[~OutletPresent, 3] -= OverwashProp[~OutletPresent] * CST_tot[~OutletPresent] / BackBarHeight[~OutletPresent]
    ShoreYChangeRate[OutletPresent, 1] -= OverwashProp[OutletPresent] * CST_tot[OutletPresent] / BackBarHeight[OutletPresent]
    ShoreYChangeRate[1:-1, 0] -= CST_tot[1:-1] / ShorefaceHeight[1:-1]
    stage('P32')
    ShoreYChangeRate[[0, -1], 0] = -PhysicalPars['ShorelineErosionRate'] / (365.25 * 86400)
    stage('P16 P17')
    MaxMorChangeRate = max(np.max(np.abs(RivBedAggRate)), np.max(np.abs(ShoreYChangeRate)), np.max(np.abs(ShoreZChangeRate)), abs(OutletEndWideningRate), abs(OutletEndAggRate), abs(OutletEndXMoveRate))
    while MorDt.total_seconds() > TimePars['MorDtMin'].total_seconds() and MaxMorChangeRate * MorDt.total_seconds() > NumericalPars['MaxMorChange']:
        MorDt = max(MorDt / 2, TimePars['MorDtMin'])
        pass
    while MorDt.total_seconds() < TimePars['MorDtMax'].total_seconds() and MaxMorChangeRate * MorDt.total_seconds() < NumericalPars['MaxMorChange'] / 2:
        MorDt = min(MorDt * 2, TimePars['MorDtMax'])
        pass
    stage('P17')
    if MaxMorChangeRate * MorDt.total_seconds() > NumericalPars['MaxMorChange']:
        assert MorDt.total_seconds() <= TimePars['MorDtMin'].total_seconds()
        pass
        MorChangeRateLimit = NumericalPars['MaxMorChange'] / MorDt.total_seconds()
        RivBedAggRate = np.minimum(np.maximum(RivBedAggRate, -MorChangeRateLimit), MorChangeRateLimit)
        ShoreYChangeRate = np.minimum(np.maximum(ShoreYChangeRate, -MorChangeRateLimit), MorChangeRateLimit)
        ShoreZChangeRate = np.minimum(np.maximum(ShoreZChangeRate, -MorChangeRateLimit), MorChangeRateLimit)
        OutletEndWideningRate = np.minimum(np.maximum(OutletEndWideningRate, -MorChangeRateLimit), MorChangeRateLimit)
        OutletEndAggRate = min(max(OutletEndAggRate, -MorChangeRateLimit), MorChangeRateLimit)
        OutletEndXMoveRate = min(max(OutletEndXMoveRate, -MorChangeRateLimit), MorChangeRateLimit)
    stage('P03 P30 P32 P34')
    RiverElev[1:] += RivBedAggRate * MorDt.total_seconds()
    ShoreZ += ShoreZChangeRate * MorDt.total_seconds()
    ShoreY += ShoreYChangeRate * MorDt.total_seconds()
    if not Closed:
        OutletEndWidth.flat[0] += OutletEndWideningRate * MorDt.total_seconds()
        OutletEndElev.flat[0] += OutletEndAggRate * MorDt.total_seconds()
        OutletEndX[1] += OutletEndXMoveRate * MorDt.total_seconds()
    stage('P36')
    if OutletEndX[1] < ShoreX[1]:
        pass
        OutletEndX[1] = ShoreX[1]
    if OutletEndX[1] > ShoreX[-2]:
        pass
        OutletEndX[1] = ShoreX[-2]
    stage('P35')
    CliffCollision = ShoreY[:, 0] <= ShoreY[:, 4]
    if np.any(CliffCollision):
        pass
        CliffOverlapDist = ShoreY[CliffCollision, 4] - ShoreY[CliffCollision, 0] + 0.001
        CliffRetDist = CliffOverlapDist / (1 + (PhysicalPars['BackshoreElev'] - ShoreZ[CliffCollision, 0]) / ShorefaceHeight[CliffCollision])
        ShoreY[CliffCollision, 4] -= CliffRetDist
        ShoreY[CliffCollision, 3] = ShoreY[CliffCollision, 4]
        ShoreY[CliffCollision, 0] += CliffOverlapDist - CliffRetDist
    stage('P35')
    if np.any(ShoreY[OutletPresent, 1] < ShoreY[OutletPresent, 2]):
        pass
        NegativeOutletWidth = np.where(OutletPresent)[0][ShoreY[OutletPresent, 1] < ShoreY[OutletPresent, 2]]
        WidthToMove = ShoreY[NegativeOutletWidth, 2] - ShoreY[NegativeOutletWidth, 1]
        VolToMove = WidthToMove * BackBarHeight[NegativeOutletWidth]
        assert np.all(VolToMove > 0), 'VolToMove should not be negative'
        VolUntilLevel = ShoreZ[NegativeOutletWidth, 2] - ShoreZ[NegativeOutletWidth, 0]
        PutSedAtFront = VolUntilLevel >= 0.0
        PutSedAtBack = VolUntilLevel < 0.0
        VolUntilLevel[PutSedAtFront] *= CrestWidth[NegativeOutletWidth][PutSedAtFront]
        VolUntilLevel[PutSedAtBack] *= -(ShoreY[NegativeOutletWidth, 2][PutSedAtBack] - ShoreY[NegativeOutletWidth, 3][PutSedAtBack])
        assert np.all(VolUntilLevel >= 0.0), 'Vol until level should not be negative'
        LeveledSections = VolToMove > VolUntilLevel
        PutSedAtFront[LeveledSections] = False
        PutSedAtBack[LeveledSections] = False
        ShoreY[NegativeOutletWidth, 1] += WidthToMove
        ShoreZ[NegativeOutletWidth[PutSedAtFront], 0] += VolToMove[PutSedAtFront] / CrestWidth[NegativeOutletWidth[PutSedAtFront]]
        ShoreZ[NegativeOutletWidth[PutSedAtBack], 2] += VolToMove[PutSedAtBack] / (ShoreY[NegativeOutletWidth[PutSedAtBack], 2] - ShoreY[NegativeOutletWidth[PutSedAtBack], 3])
        if np.any(LeveledSections):
            for XcoordOfSec in ShoreX[NegativeOutletWidth[LeveledSections]]:
                pass
            ShoreY[NegativeOutletWidth[LeveledSections], 1] = np.nan
            ShoreY[NegativeOutletWidth[LeveledSections], 2] = np.nan
            ShoreZ[NegativeOutletWidth[LeveledSections], 0] = np.maximum(ShoreZ[NegativeOutletWidth[LeveledSections], 0], ShoreZ[NegativeOutletWidth[LeveledSections], 2]) + (VolToMove[LeveledSections] - VolUntilLevel[LeveledSections]) / (ShoreY[NegativeOutletWidth[LeveledSections], 0] - ShoreY[NegativeOutletWidth[LeveledSections], 3])
            ShoreZ[NegativeOutletWidth[LeveledSections], 1] = np.nan
            ShoreZ[NegativeOutletWidth[LeveledSections], 2] = np.nan
            OutletPresent = ~np.isnan(ShoreY[:, 1])
    stage('P36')
    if not Closed:
        if OutletEndX[0] < OutletEndX[1]:
            if ShoreX[OutletChanIx[-1] + 1] <= OutletEndX[1]:
                Extend = True
                ExtendMask = np.logical_and(ShoreX[OutletChanIx[-1]] < ShoreX, ShoreX <= OutletEndX[1])
                pass
            else:
                Extend = False
        elif ShoreX[OutletChanIx[-1] - 1] >= OutletEndX[1]:
            Extend = True
            ExtendMask = np.logical_and(ShoreX[OutletChanIx[-1]] > ShoreX, ShoreX >= OutletEndX[1])
            pass
        else:
            Extend = False
        if Extend:
            ShoreY[ExtendMask, 1] = ShoreY[ExtendMask, 0] - PhysicalPars['SpitWidth']
            ShoreY[ExtendMask, 2] = ShoreY[ExtendMask, 1] - OutletEndWidth
            ShoreZ[ExtendMask, 1] = OutletEndElev
            ShoreZ[ExtendMask, 2] = ShoreZ[ExtendMask, 0]
            ShoreZ[ExtendMask, 0] = PhysicalPars['BeachTopElev']
            if OutletEndX[0] < OutletEndX[1]:
                OutletChanIx = np.where(np.logical_and(OutletEndX[0] <= ShoreX, ShoreX <= OutletEndX[1]))[0]
            else:
                OutletChanIx = np.flipud(np.where(np.logical_and(OutletEndX[1] <= ShoreX, ShoreX <= OutletEndX[0]))[0])
    if not Closed:
        if ShoreY[OutletChanIx[0], 1] >= ShoreY[OutletChanIx[0], 0]:
            pass
            ShoreShiftDist = 0.001 + (ShoreY[OutletChanIx[0], 1] - ShoreY[OutletChanIx[0], 0])
            ShoreY[OutletChanIx[0], 1] -= ShoreShiftDist
            ShoreY[OutletChanIx[0], 2] -= ShoreShiftDist * (ShoreZ[OutletChanIx[0], 0] - ShoreZ[OutletChanIx[0], 1]) / (ShoreZ[OutletChanIx[0], 2] - ShoreZ[OutletChanIx[0], 1])
    if OutletChanIx.size > 1:
        if np.any(ShoreY[OutletChanIx[:-1], 2] <= ShoreY[OutletChanIx[:-1], 3]):
            TruncationIx = OutletChanIx[:-1][ShoreY[OutletChanIx[:-1], 2] <= ShoreY[OutletChanIx[:-1], 3]]
            for AffectedX in TruncationIx:
                pass
            if OutletEndX[0] < OutletEndX[1]:
                OutletEndX[0] = ShoreX[TruncationIx[0] + 1]
            else:
                OutletEndX[0] = ShoreX[TruncationIx[0] - 1]
            if OutletEndX[0] < OutletEndX[1]:
                OutletChanIx = np.where(np.logical_and(OutletEndX[0] <= ShoreX, ShoreX <= OutletEndX[1]))[0]
            else:
                OutletChanIx = np.flipud(np.where(np.logical_and(OutletEndX[1] <= ShoreX, ShoreX <= OutletEndX[0]))[0])
            assert OutletChanIx.size > 0, 'zero length outlet channel after lagoonward truncation'
            if ShoreY[TruncationIx[0], 2] <= ShoreY[TruncationIx[0], 4]:
                if ShoreX[TruncationIx[0]] > 0:
                    pass
                    Extend = True
                    CurLagEndIx = np.where(ShoreY[:, 3] > ShoreY[:, 4])[0][-1]
                    LagExtension = np.arange(CurLagEndIx + 1, TruncationIx[0] + 1)
                else:
                    pass
                    Extend = True
                    CurLagEndIx = np.where(ShoreY[:, 3] > ShoreY[:, 4])[0][0]
                    LagExtension = np.arange(TruncationIx[0], CurLagEndIx)
            else:
                Extend = False
            if Extend:
                pass
                ShoreY[LagExtension, 3] = ShoreY[LagExtension, 1]
                ShoreZ[LagExtension, 3] = ShoreZ[LagExtension, 1]
                ShoreY[LagExtension, 1] = np.nan
                ShoreY[LagExtension, 2] = np.nan
                ShoreZ[LagExtension, 1] = np.nan
                ShoreZ[LagExtension, 2] = np.nan
                OutletPresent[LagExtension] = False
    if OutletChanIx.size > 1:
        if np.any(ShoreY[OutletChanIx[1:], 1] >= ShoreY[OutletChanIx[1:], 0]):
            pass
            TruncationIx = OutletChanIx[ShoreY[OutletChanIx, 1] >= ShoreY[OutletChanIx, 0]]
            if OutletEndX[0] < OutletEndX[1]:
                OutletEndX[1] = ShoreX[TruncationIx[0]] - Dx / 2
                OutletChanIx = np.where(np.logical_and(OutletEndX[0] <= ShoreX, ShoreX <= OutletEndX[1]))[0]
            else:
                OutletEndX[1] = ShoreX[TruncationIx[0]] + Dx / 2
                OutletChanIx = np.flipud(np.where(np.logical_and(OutletEndX[1] <= ShoreX, ShoreX <= OutletEndX[0]))[0])
    stage('P36 P35')
    if not Closed:
        if ShoreY[OutletChanIx[-1], 3] >= ShoreY[OutletChanIx[-1], 2]:
            pass
            ShoreY[OutletChanIx[-1], 3] = ShoreY[OutletChanIx[-1], 2] - 0.0001
            if ShoreY[OutletChanIx[-1], 3] < ShoreY[OutletChanIx[-1], 4]:
                pass
                CliffOverlapDist = ShoreY[OutletChanIx[-1], 4] - ShoreY[OutletChanIx[-1], 3]
                CliffRetDist = CliffOverlapDist / (1 + (PhysicalPars['BackshoreElev'] - ShoreZ[OutletChanIx[-1], 2]) / (ShoreZ[OutletChanIx[-1], 2] - ShoreZ[OutletChanIx[-1], 1]))
                ShoreY[OutletChanIx[-1], 4] -= CliffRetDist
                ShoreY[OutletChanIx[-1], [2, 3]] += CliffOverlapDist - CliffRetDist
    stage('P35')
    LagoonIntersect = ~np.greater(ShoreY[:, 2], ShoreY[:, 3], where=~np.isnan(ShoreY[:, 1]), out=np.full(ShoreX.size, True))
    if np.any(LagoonIntersect):
        for IntersectIx in np.where(LagoonIntersect)[0]:
            pass
        ShoreZ[LagoonIntersect, 3] = ((ShoreY[LagoonIntersect, 1] - ShoreY[LagoonIntersect, 2]) * ShoreZ[LagoonIntersect, 1] + (ShoreY[LagoonIntersect, 3] - ShoreY[LagoonIntersect, 4]) * ShoreZ[LagoonIntersect, 3]) / (ShoreY[LagoonIntersect, 1] - ShoreY[LagoonIntersect, 4])
        ShoreY[LagoonIntersect, 3] += ShoreY[LagoonIntersect, 1] - ShoreY[LagoonIntersect, 2]
        ShoreY[LagoonIntersect, 1] = np.nan
        ShoreY[LagoonIntersect, 2] = np.nan
        ShoreZ[LagoonIntersect, 1] = np.nan
        ShoreZ[LagoonIntersect, 2] = np.nan
        OutletPresent[LagoonIntersect] = False
    stage('P37')
    WideEnoughChannel = np.full(ShoreX.shape, False)
    WideEnoughChannel[OutletPresent] = ShoreY[OutletPresent, 1] - ShoreY[OutletPresent, 2] >= PhysicalPars['MinOutletWidth']
    OutletUsIx = np.argmin(np.abs(ShoreX - OutletEndX[0]))
    if not Closed:
        ConnectedChanMinMax = np.array([np.min(OutletChanIx), np.max(OutletChanIx)])
    elif not np.isnan(OutletEndX[0]):
        if not WideEnoughChannel[OutletUsIx]:
            OutletEndX[0] = np.nan
            ConnectedChanMinMax = [np.nan, np.nan]
        elif not np.all(LagoonOpen[min(OutletUsIx, X0Ix):max(OutletUsIx, X0Ix) + 1]):
            OutletEndX[0] = np.nan
            ConnectedChanMinMax = [np.nan, np.nan]
        else:
            ConnectedChanMinMax = [OutletUsIx, OutletUsIx]
    else:
        ConnectedChanMinMax = [np.nan, np.nan]
    if not np.isnan(ConnectedChanMinMax[0]):
        while WideEnoughChannel[ConnectedChanMinMax[0] - 1]:
            WaterLevel[ConnectedChanMinMax[0] - 1] = WaterLevel[ConnectedChanMinMax[0]]
            ConnectedChanMinMax[0] -= 1
    if not np.isnan(ConnectedChanMinMax[1]):
        while WideEnoughChannel[ConnectedChanMinMax[1] + 1]:
            WaterLevel[ConnectedChanMinMax[1] + 1] = WaterLevel[ConnectedChanMinMax[1]]
            ConnectedChanMinMax[1] += 1
    ConnectedChan = np.logical_and(np.arange(0, ShoreX.size) >= ConnectedChanMinMax[0], np.arange(0, ShoreX.size) <= ConnectedChanMinMax[1])
    assert not np.any(np.isnan(WaterLevel)), 'NaN value(s) in WaterLevel at X = %s' % ShoreX[np.isnan(WaterLevel)]
    stage('P37')
    Breach = False
    BreachIx = np.nan
    stage('P35 P37 P38')
    ShoreIntersect = ~np.greater(ShoreY[:, 0], ShoreY[:, 1], where=~np.isnan(ShoreY[:, 1]), out=np.full(ShoreX.size, True))
    if np.any(ShoreIntersect):
        if Closed and np.any(ShoreIntersect[ConnectedChan]):
            Breach = True
            PossBreachTsects = np.where(np.logical_and(ShoreIntersect, ConnectedChan))[0]
            ChanLength = np.abs(ShoreX[PossBreachTsects] - OutletEndX[0])
            BreachIx = PossBreachTsects[np.argmin(ChanLength)]
            ShoreIntersect = ShoreIntersect[ShoreIntersect != BreachIx]
        for IntersectIx in np.where(ShoreIntersect)[0]:
            pass
        ShoreY[ShoreIntersect, 0] -= (ShoreY[ShoreIntersect, 1] - ShoreY[ShoreIntersect, 2]) * (ShoreZ[ShoreIntersect, 2] - ShoreZ[ShoreIntersect, 1]) / (ShoreZ[ShoreIntersect, 2] + PhysicalPars['ClosureDepth'])
        ShoreY[ShoreIntersect, 1] = np.nan
        ShoreY[ShoreIntersect, 2] = np.nan
        ShoreZ[ShoreIntersect, 1] = np.nan
        OutletPresent[ShoreIntersect] = False
        ShoreZ[ShoreIntersect, 0] = ShoreZ[ShoreIntersect, 2]
        ShoreZ[ShoreIntersect, 2] = np.nan
    stage('P37 P35')
    EroTsects = np.where(np.logical_and(ShoreY[:, 3] >= ShoreY[:, 0], ShoreY[:, 3] > ShoreY[:, 4]))[0]
    if EroTsects.size > 0:
        PossBreachTsects = []
        for TsectIx in EroTsects:
            pass
            if TsectIx > X0Ix:
                if np.all(LagoonOpen[np.arange(X0Ix + 1, TsectIx + 1)]):
                    PossBreachTsects.append(TsectIx)
            elif TsectIx < X0Ix:
                if np.all(LagoonOpen[np.arange(TsectIx, X0Ix)]):
                    PossBreachTsects.append(TsectIx)
            else:
                PossBreachTsects.append(TsectIx)
        if Breach:
            pass
        elif len(PossBreachTsects) == 0:
            pass
        elif Closed:
            pass
            Breach = True
        elif np.min(np.abs(ShoreX[PossBreachTsects])) < np.abs(OutletEndX[0]):
            pass
            Breach = True
        else:
            pass
        if Breach and np.isnan(BreachIx):
            BreachIx = PossBreachTsects[np.argmin(np.abs(ShoreX[PossBreachTsects]))]
            NotBreachIx = EroTsects[EroTsects != BreachIx]
        else:
            NotBreachIx = EroTsects
        if NotBreachIx.size > 0:
            OverlapDist = 0.001 + (ShoreY[NotBreachIx, 3] - ShoreY[NotBreachIx, 0])
            ShoreShiftDist = OverlapDist / (1 + ShorefaceHeight[NotBreachIx] / (ShoreZ[NotBreachIx, 0] - ShoreZ[NotBreachIx, 3]))
            ShoreY[NotBreachIx, 0] += ShoreShiftDist
            ShoreY[NotBreachIx, 3] -= OverlapDist - ShoreShiftDist
    stage('P37')
    CrestHeight = ShoreZ[:, 0].copy()
    CrestHeight[OutletPresent] = np.amax(ShoreZ[OutletPresent, :][:, [0, 2]], axis=1)
    CrestHeight[ConnectedChan] = ShoreZ[ConnectedChan, 0]
    assert not np.any(np.isnan(CrestHeight)), 'NaN value(s) in CrestHeight at X = %s' % ShoreX[np.isnan(CrestHeight)]
    if not Breach and np.any(CrestHeight < WaterLevel):
        SpillTsects = np.where(CrestHeight < WaterLevel)[0]
        PossBreachTsects = []
        LagoonOpen = ShoreY[:, 3] - ShoreY[:, 4] > PhysicalPars['MinOutletWidth']
        for TsectIx in SpillTsects:
            pass
            if ConnectedChan[TsectIx]:
                PossBreachTsects.append(TsectIx)
            if TsectIx > X0Ix:
                if np.all(LagoonOpen[np.arange(X0Ix + 1, TsectIx + 1)]):
                    PossBreachTsects.append(TsectIx)
            elif TsectIx < X0Ix:
                if np.all(LagoonOpen[np.arange(TsectIx, X0Ix)]):
                    PossBreachTsects.append(TsectIx)
            else:
                PossBreachTsects.append(TsectIx)
        PossBreachTsects = np.array(PossBreachTsects)
        if PossBreachTsects.size > 0 and (not Closed):
            CloserToRiv = np.abs(ShoreX) < np.min(np.abs(OutletEndX))
            CloserToRiv[ConnectedChan] = np.abs(ShoreX[ConnectedChan] - OutletEndX[0]) < np.abs(OutletEndX[1] - OutletEndX[0])
            PossBreachTsects = PossBreachTsects[CloserToRiv[PossBreachTsects]]
        if PossBreachTsects.size == 0:
            pass
        else:
            BreachIx = PossBreachTsects[np.argmax(WaterLevel[PossBreachTsects] - CrestHeight[PossBreachTsects])]
            Breach = True
            if Closed:
                pass
            else:
                pass
    stage('P38')
    if Breach:
        if BreachIx in ConnectedChan:
            pass
            OutletEndX[1] = ShoreX[BreachIx]
        else:
            pass
            OutletEndX[:] = ShoreX[BreachIx]
            ShoreZ[BreachIx, 2] = ShoreZ[BreachIx, 0]
            OutletEndWidth.flat[0] = max(OutletEndWidth, 2 * PhysicalPars['MinOutletWidth'])
            ShoreY[BreachIx, 1] = min(ShoreY[BreachIx, 0] - PhysicalPars['SpitWidth'], (ShoreY[BreachIx, 0] + ShoreY[BreachIx, 3]) / 2 + OutletEndWidth / 2)
            ShoreY[BreachIx, 2] = ShoreY[BreachIx, 1] - OutletEndWidth
            OutletEndElev.flat[0] = min(OutletEndElev, PhysicalPars['MaxOutletElev'])
            ShoreZ[BreachIx, 1] = 0.5 * OutletEndElev + 0.5 * ShoreZ[BreachIx, 3]
            if ShoreY[BreachIx, 3] >= ShoreY[BreachIx, 2]:
                pass
                ShoreY[BreachIx, 3] = ShoreY[BreachIx, 2] - 0.001
            if ShoreY[BreachIx, 4] >= ShoreY[BreachIx, 2]:
                pass
                ShoreY[BreachIx, 4] = ShoreY[BreachIx, 2] - 0.001
    stage('P35 P39')
    if ShoreY[X0Ix, 3] - ShoreY[X0Ix, 4] < PhysicalPars['MinOutletWidth']:
        pass
        ShoreY[X0Ix, 4] = ShoreY[X0Ix, 3] - PhysicalPars['MinOutletWidth'] - 0.001
    stage('P39')
    assert np.all(~np.isnan(ShoreY[:, 0])), 'NaN value(s) in ShoreY[:,0] at X = %s' % ShoreX[np.isnan(ShoreY[:, 0])]
    assert np.all(~np.isnan(ShoreY[:, 3])), 'NaN value(s) in ShoreY[:,3] at X = %s' % ShoreX[np.isnan(ShoreY[:, 3])]
    assert np.all(~np.isnan(ShoreY[:, 4])), 'NaN value(s) in ShoreY[:,4] at X = %s' % ShoreX[np.isnan(ShoreY[:, 4])]
    return (MorDt, Breach)

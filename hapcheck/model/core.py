"""Reference model of core."""
import logging
import pandas as pd
import numpy as np
import matplotlib.pyplot as plt
from . import loadmod
from . import riv
from . import coast
from . import mor
from . import visualise
from . import out

def main(ModelConfigFile, Overwrite=False):
    ModelName, FlowTs, WaveTs, SeaLevelTs, Origin, ShoreNormDir, ShoreX, ShoreY, ShoreZ, RiverElev, OutletEndX, OutletEndWidth, OutletEndElev, RiverWL, RiverVel, LagoonWL, LagoonVel, OutletDep, OutletVel, OutletEndDep, OutletEndVel, Closed, TimePars, PhysicalPars, NumericalPars, OutputOpts = loadmod.loadModel(ModelConfigFile)
    RivFlow = interpolate_at(FlowTs, pd.DatetimeIndex([TimePars['StartTime']])).values
    SeaLevel = interpolate_at(SeaLevelTs, pd.DatetimeIndex([TimePars['StartTime']])).values
    WavesAtT = interpolate_at(WaveTs, pd.DatetimeIndex([TimePars['StartTime']]))
    EDir_h = WavesAtT.EDir_h[0]
    Hs_offshore = WavesAtT.Hsig_Offshore[0]
    ChanDx, ChanElev, ChanWidth, LagArea, LagLen, ChanDep, ChanVel, OnlineLagoon, OutletChanIx, ChanFlag, Closed = riv.assembleChannel(ShoreX, ShoreY, ShoreZ, OutletEndX, OutletEndWidth, OutletEndElev, Closed, RiverElev, RiverWL - RiverElev, RiverVel, LagoonWL, LagoonVel, OutletDep, OutletVel, OutletEndDep, OutletEndVel, NumericalPars['Dx'], PhysicalPars)
    if np.all(LagoonVel == 0):
        ChanDep, ChanVel = riv.solveSteady(ChanDx, ChanElev, ChanWidth, PhysicalPars['RoughnessManning'], RivFlow, SeaLevel, NumericalPars, PhysicalPars['Gravity'])
        LagoonWL, LagoonVel, OutletDep, OutletVel, OutletEndDep, OutletEndVel = riv.storeHydraulics(ChanDep, ChanVel, OnlineLagoon, OutletChanIx, ChanFlag, ShoreZ[:, 3], Closed)
    out.newOutFile(OutputOpts['OutFile'], ModelName, TimePars['StartTime'], ShoreX, NumericalPars['Dx'], RiverElev, Origin, ShoreNormDir, PhysicalPars, Overwrite)
    out.writeCurrent(OutputOpts['OutFile'], TimePars['StartTime'], SeaLevel[-1], RivFlow[-1], Hs_offshore, EDir_h, ShoreY, ShoreZ, LagoonWL, LagoonVel, np.zeros(ShoreX.size), OutletDep, OutletVel, np.zeros(ShoreX.size), np.zeros(ShoreX.size - 1), np.zeros(ShoreX.size), np.zeros(ShoreX.size), RiverElev, ChanDep[ChanFlag == 0], ChanVel[ChanFlag == 0], np.zeros(RiverElev.size), OutletEndX, OutletEndElev, OutletEndWidth, OutletEndDep, OutletEndVel, np.zeros(2), Closed)
    out.newTsOutFile(OutputOpts['TsOutFile'], ModelName, TimePars['StartTime'], Overwrite)
    out.writeTsOut(OutputOpts['TsOutFile'], TimePars['StartTime'], SeaLevel[-1], RivFlow[-1], Hs_offshore, EDir_h, np.nanmean(LagoonWL), ChanDep[-1] * ChanVel[-1] * ChanWidth[-1], 0, OutletEndX, Closed, TimePars['MorDtMin'])
    LivePlot = OutputOpts['PlotInt'] > pd.Timedelta(0)
    if LivePlot:
        plt.ion()
        LongSecFig = visualise.longSection(ChanDx, ChanElev, ChanWidth, ChanDep, ChanVel, np.zeros(ChanElev.size - 1))
        BdyPlotTs = pd.DataFrame(list(zip([RivFlow], [RivFlow], [SeaLevel])), columns=['Qin', 'Qout', 'SeaLevel'], index=pd.DatetimeIndex([TimePars['StartTime']]))
        BdyFig = visualise.bdyCndFig(BdyPlotTs)
        ModelFig = visualise.modelView(ShoreX, ShoreY, OutletEndX, OutletEndWidth, OutletChanIx, PhysicalPars['RiverWidth'], PhysicalPars['SpitWidth'], ShoreZ=ShoreZ, WavePower=0, EDir_h=0, LST=np.zeros(ShoreX.size - 1), CST=np.zeros(ShoreX.size), Closed=Closed)
    MorTime = TimePars['StartTime']
    OutTime = TimePars['StartTime'] + OutputOpts['OutInt']
    TsOutTime = TimePars['StartTime'] + OutputOpts['TsOutInt']
    LogTime = TimePars['StartTime'] + OutputOpts['LogInt']
    PlotTime = TimePars['StartTime'] + OutputOpts['PlotInt']
    MorDt = TimePars['MorDtMin']
    while MorTime < TimePars['EndTime']:
        ChanDx, ChanElev, ChanWidth, LagArea, LagLen, ChanDep, ChanVel, OnlineLagoon, OutletChanIx, ChanFlag, Closed = riv.assembleChannel(ShoreX, ShoreY, ShoreZ, OutletEndX, OutletEndWidth, OutletEndElev, Closed, RiverElev, ChanDep[ChanFlag == 0], ChanVel[ChanFlag == 0], LagoonWL, LagoonVel, OutletDep, OutletVel, OutletEndDep, OutletEndVel, NumericalPars['Dx'], PhysicalPars)
        HydTimes = pd.date_range(MorTime, min(MorTime + MorDt, TimePars['EndTime']), freq=TimePars['HydDt'], closed='right')
        RivFlow = interpolate_at(FlowTs, HydTimes).values
        SeaLevel = interpolate_at(SeaLevelTs, HydTimes).values
        try:
            riv.solveFullPreissmann(ChanElev, ChanWidth, LagArea, LagLen, Closed, ChanDep, ChanVel, ChanDx, TimePars['HydDt'], RivFlow, SeaLevel, NumericalPars, PhysicalPars)
        except Exception as ErrMsg:
            pass
            pass
            ChanDep, ChanVel = riv.solveSteady(ChanDx, ChanElev, ChanWidth, PhysicalPars['RoughnessManning'], RivFlow[-1], SeaLevel[-1], NumericalPars, PhysicalPars['Gravity'])
        LagoonWL, LagoonVel, OutletDep, OutletVel, OutletEndDep, OutletEndVel = riv.storeHydraulics(ChanDep, ChanVel, OnlineLagoon, OutletChanIx, ChanFlag, ShoreZ[:, 3], Closed)
        Bedload = riv.calcBedload(ChanElev, ChanWidth, ChanDep, ChanVel, ChanDx, PhysicalPars, NumericalPars['Psi'])
        assert Bedload.size == ChanElev.size - 1
        WavesAtT = interpolate_at(WaveTs, pd.DatetimeIndex([MorTime]))
        EDir_h = WavesAtT.EDir_h[0]
        WavePower = WavesAtT.WavePower[0]
        WavePeriod = WavesAtT.WavePeriod[0]
        Wlen_h = WavesAtT.Wlen_h[0]
        Hs_offshore = WavesAtT.Hsig_Offshore[0]
        LST = coast.longShoreTransport(ShoreY, NumericalPars['Dx'], WavePower, WavePeriod, Wlen_h, EDir_h, PhysicalPars)
        Runup = coast.runup(WavePeriod, Hs_offshore, PhysicalPars['BeachSlope'])
        CST_tot, OverwashProp = coast.overtopping(Runup, SeaLevel[-1], ShoreY, ShoreZ, PhysicalPars)
        MorDt, Breach = mor.updateMorphology(ShoreX, ShoreY, ShoreZ, OutletEndX, OutletEndWidth, OutletEndElev, RiverElev, OnlineLagoon, OutletChanIx, LagoonWL, OutletDep, ChanWidth, ChanDep, ChanDx, ChanFlag, Closed, LST, Bedload, CST_tot, OverwashProp, MorDt, PhysicalPars, TimePars, NumericalPars)
        if MorDt > TimePars['EndTime'] - MorTime:
            MorDt = TimePars['EndTime'] - MorTime
        MorTime += MorDt
        if MorTime >= OutTime or (LivePlot and MorTime >= PlotTime):
            LagoonBedload, OutletBedload, OutletEndBedload = riv.storeBedload(Bedload, ShoreX.size, OnlineLagoon, OutletChanIx, ChanFlag, Closed)
        if MorTime >= OutTime:
            out.writeCurrent(OutputOpts['OutFile'], MorTime, SeaLevel[-1], RivFlow[-1], Hs_offshore, EDir_h, ShoreY, ShoreZ, LagoonWL, LagoonVel, LagoonBedload, OutletDep, OutletVel, OutletBedload, LST, CST_tot, OverwashProp, RiverElev, ChanDep[ChanFlag == 0], ChanVel[ChanFlag == 0], Bedload[ChanFlag[:-1] == 0], OutletEndX, OutletEndElev, OutletEndWidth, OutletEndDep, OutletEndVel, OutletEndBedload, Closed)
            OutTime += OutputOpts['OutInt']
        if MorTime >= TsOutTime:
            out.writeTsOut(OutputOpts['TsOutFile'], MorTime, SeaLevel[-1], RivFlow[-1], Hs_offshore, EDir_h, np.nanmean(LagoonWL), ChanDep[-1] * ChanVel[-1] * ChanWidth[-1], Bedload[0], OutletEndX, Closed, MorDt)
            TsOutTime += OutputOpts['TsOutInt']
        if MorTime >= LogTime:
            pass
            LogTime += OutputOpts['LogInt']
        if LivePlot:
            if MorTime >= PlotTime:
                visualise.updateLongSection(LongSecFig, ChanDx, ChanElev, ChanWidth, ChanDep, ChanVel, Bedload)
                BdyPlotTs = BdyPlotTs.append(pd.DataFrame(list(zip([RivFlow[-1]], [ChanDep[-1] * ChanVel[-1] * ChanWidth[-1]], [SeaLevel[-1]])), columns=['Qin', 'Qout', 'SeaLevel'], index=pd.DatetimeIndex([MorTime])))
                visualise.updateBdyCndFig(BdyFig, BdyPlotTs)
                visualise.updateModelView(ModelFig, ShoreX, ShoreY, OutletEndX, OutletEndWidth, OutletChanIx, Closed=Closed, ShoreZ=ShoreZ, WavePower=WavePower, EDir_h=EDir_h, LST=LST, CST=CST_tot)
                PlotTime += OutputOpts['PlotInt']
        if Breach:
            Closed = False

def interpolate_at(Df, New_idxs):
    FromIx = np.where(Df.index <= New_idxs[0])[0][-1]
    ToIx = np.where(Df.index >= New_idxs[-1])[0][0]
    Selected = Df[FromIx:ToIx + 1]
    Selected = Selected.reindex(Selected.index.append(New_idxs).unique())
    Selected = Selected.sort_index()
    Selected = Selected.interpolate(method='time')
    return Selected.loc[New_idxs]

"""Reference model of out."""
import netCDF4
import numpy as np
import pandas as pd
import datetime
import os
import logging

def newOutFile(FileName, ModelName, StartTime, ShoreX, Dx, RiverElev, Origin, ShoreNormDir, PhysicalPars, Overwrite=False):
    if os.path.isfile(FileName):
        if not Overwrite:
            Confirm = input('Confirm ok to overwrite "%s" (y/n):' % FileName)
            Overwrite = Confirm in ['Y', 'y', 'Yes', 'yes', 'YES']
        if Overwrite:
            os.remove(FileName)
            pass
        else:
            raise Exception('Conflict with existing output file "%s"' % FileName)
    else:
        pass
    NcFile = netCDF4.Dataset(FileName, mode='w', format='NETCDF4_CLASSIC')
    XDim = NcFile.createDimension('transect_x', ShoreX.size)
    XSegDim = NcFile.createDimension('shore_segment_x', ShoreX.size - 1)
    RivDim = NcFile.createDimension('river_dist', RiverElev.size)
    EndsDim = NcFile.createDimension('outlet_ends', 2)
    TimeDim = NcFile.createDimension('time', None)
    NcFile.ModelName = ModelName
    NcFile.ModelStartTime = datetime.datetime.now().strftime('%Y-%m-%d %H:%M:%S')
    NcFile.ModelOriginX = Origin[0]
    NcFile.ModelOriginY = Origin[1]
    NcFile.ModelOrientation = np.rad2deg(ShoreNormDir)
    NcFile.Kcoef = PhysicalPars['Kcoef']
    NcFile.RhoSed = PhysicalPars['RhoSed']
    NcFile.RhoSea = PhysicalPars['RhoSea']
    NcFile.RhoRiv = PhysicalPars['RhoRiv']
    NcFile.VoidRatio = PhysicalPars['VoidRatio']
    NcFile.Gravity = PhysicalPars['Gravity']
    NcFile.GammaRatio = PhysicalPars['GammaRatio']
    NcFile.WaveDataDepth = PhysicalPars['WaveDataDepth']
    NcFile.ClosureDepth = PhysicalPars['ClosureDepth']
    NcFile.BeachSlope = PhysicalPars['BeachSlope']
    NcFile.RiverSlope = PhysicalPars['RiverSlope']
    NcFile.GrainSize = PhysicalPars['GrainSize']
    NcFile.CritShieldsStress = PhysicalPars['CritShieldsStress']
    NcFile.MPM_coef = PhysicalPars['MPM_coef']
    NcFile.MPM_exp = PhysicalPars['MPM_exp']
    NcFile.UpstreamLength = PhysicalPars['UpstreamLength']
    NcFile.RiverWidth = PhysicalPars['RiverWidth']
    NcFile.RoughnessManning = PhysicalPars['RoughnessManning']
    NcFile.GrainRoughness = PhysicalPars['GrainRoughness']
    NcFile.WidthDepthRatio = PhysicalPars['WidthDepthRatio']
    NcFile.BackshoreElev = PhysicalPars['BackshoreElev']
    NcFile.MaxOutletElev = PhysicalPars['MaxOutletElev']
    NcFile.OT_coef = PhysicalPars['OT_coef']
    NcFile.OT_exp = PhysicalPars['OT_exp']
    NcFile.BeachTopElev = PhysicalPars['BeachTopElev']
    NcFile.SpitWidth = PhysicalPars['SpitWidth']
    NcFile.TargetBarHeight = PhysicalPars['TargetBarHeight']
    NcFile.TargetBarWidth = PhysicalPars['TargetBarWidth']
    NcFile.MinOutletWidth = PhysicalPars['MinOutletWidth']
    NcFile.OutletSedSpreadDist = PhysicalPars['OutletSedSpreadDist']
    NcFile.OutletBankEroFac = PhysicalPars['OutletBankEroFac']
    NcFile.BarrierPermeability = PhysicalPars['BarrierPermeability']
    NcFile.ShorelineErosionRate = PhysicalPars['ShorelineErosionRate']
    XVar = NcFile.createVariable(XDim.name, np.float32, (XDim.name,))
    XVar.units = 'm'
    XVar.long_name = 'X co-ordinates of model shore transects'
    XVar[:] = ShoreX
    XSegVar = NcFile.createVariable(XSegDim.name, np.float32, (XSegDim.name,))
    XSegVar.units = 'm'
    XSegVar.long_name = 'X co-ordinates of midpoints of shoreline segments between transects'
    XSegVar[:] = (ShoreX[:-1] + ShoreX[1:]) / 2
    RivVar = NcFile.createVariable(RivDim.name, np.float32, (RivDim.name,))
    RivVar.units = 'm'
    RivVar.long_name = 'Distance along river to each cross-section upstream of lagoon'
    RivVar[:] = np.arange(RiverElev.size) * Dx
    TimeVar = NcFile.createVariable(TimeDim.name, np.float64, (TimeDim.name,))
    TimeVar.units = 'seconds since %s' % StartTime.strftime('%Y-%m-%d')
    TimeVar.calendar = 'standard'
    TimeVar.long_name = 'Model output times'
    SeaLevelVar = NcFile.createVariable('sea_level', np.float32, (TimeDim.name,))
    SeaLevelVar.units = 'm'
    SeaLevelVar.long_name = 'Sea level'
    RiverFlowVar = NcFile.createVariable('river_flow', np.float32, (TimeDim.name,))
    RiverFlowVar.units = 'm3/s'
    RiverFlowVar.long_name = 'River flow upstream of hapua'
    WaveHeightVar = NcFile.createVariable('hs_offshore', np.float32, (TimeDim.name,))
    WaveHeightVar.units = 'm'
    WaveHeightVar.long_name = 'Offshore significant wave height'
    WaveDirVar = NcFile.createVariable('wave_dir', np.float32, (TimeDim.name,))
    WaveDirVar.units = 'radians'
    WaveDirVar.long_name = 'Direction of wave energy at model input point (depth=WaveDataDepth), relative to shore normal'
    ShoreYVar = NcFile.createVariable('shoreline_y', np.float32, (TimeDim.name, XDim.name))
    ShoreYVar.units = 'm'
    ShoreYVar.long_name = 'Y coordinate of shoreline at each transect'
    Outlet1YVar = NcFile.createVariable('outlet_bank1_y', np.float32, (TimeDim.name, XDim.name))
    Outlet1YVar.units = 'm'
    Outlet1YVar.long_name = 'Y coordinate of seaward bank of outlet channel at each transect'
    Outlet2YVar = NcFile.createVariable('outlet_bank2_y', np.float32, (TimeDim.name, XDim.name))
    Outlet2YVar.units = 'm'
    Outlet2YVar.long_name = 'Y coordinate of lagoonward bank of outlet channel at each transect'
    LagoonYVar = NcFile.createVariable('lagoon_y', np.float32, (TimeDim.name, XDim.name))
    LagoonYVar.units = 'm'
    LagoonYVar.long_name = 'Y coordinate of seaward edge of lagoon at each transect'
    CliffYVar = NcFile.createVariable('cliff_y', np.float32, (TimeDim.name, XDim.name))
    CliffYVar.units = 'm'
    CliffYVar.long_name = 'Y coordinate of cliff toe at each transect'
    LagoonElevVar = NcFile.createVariable('lagoon_bed_z', np.float32, (TimeDim.name, XDim.name))
    LagoonElevVar.units = 'm'
    LagoonElevVar.long_name = 'Lagoon bed elevation at each transect'
    OutletElevVar = NcFile.createVariable('outlet_bed_z', np.float32, (TimeDim.name, XDim.name))
    OutletElevVar.units = 'm'
    OutletElevVar.long_name = 'Outlet bed elevation at each transect'
    BarrierElevVar = NcFile.createVariable('barrier_crest_z', np.float32, (TimeDim.name, XDim.name))
    BarrierElevVar.units = 'm'
    BarrierElevVar.long_name = 'Barrier crest elevation at each transect'
    InnerBarrierElevVar = NcFile.createVariable('inner_barrier_crest_z', np.float32, (TimeDim.name, XDim.name))
    InnerBarrierElevVar.units = 'm'
    InnerBarrierElevVar.long_name = 'Inner barrier crest elevation at each transect'
    LagoonWlVar = NcFile.createVariable('lagoon_wl', np.float32, (TimeDim.name, XDim.name))
    LagoonWlVar.units = 'm'
    LagoonWlVar.long_name = 'Lagoon water level at each transect'
    LagoonVelVar = NcFile.createVariable('lagoon_vel', np.float32, (TimeDim.name, XDim.name))
    LagoonVelVar.units = 'm/s'
    LagoonVelVar.long_name = 'Mean lagoon velocity at each transect (+ve = outflowing i.e. towards outlet channel)'
    LagoonBedloadVar = NcFile.createVariable('lagoon_bedload', np.float32, (TimeDim.name, XDim.name))
    LagoonBedloadVar.units = 'm3(bulk including voids)/s'
    LagoonBedloadVar.long_name = 'bedlaod transport in lagoon at each transect (+ve = outflowing i.e. towards outlet channel)'
    OutletWlVar = NcFile.createVariable('outlet_wl', np.float32, (TimeDim.name, XDim.name))
    OutletWlVar.units = 'm'
    OutletWlVar.long_name = 'Outlet water level at each transect'
    OutletVelVar = NcFile.createVariable('outlet_vel', np.float32, (TimeDim.name, XDim.name))
    OutletVelVar.units = 'm/s'
    OutletVelVar.long_name = 'Mean outlet channel velocity at each transect (+ve = outflowing i.e. towards sea)'
    OutletBedloadVar = NcFile.createVariable('outlet_bedload', np.float32, (TimeDim.name, XDim.name))
    OutletBedloadVar.units = 'm3(bulk including voids)/s'
    OutletBedloadVar.long_name = 'bedlaod transport in outlet channel at each transect (+ve = outflowing i.e. towards sea)'
    LstVar = NcFile.createVariable('lst', np.float32, (TimeDim.name, XSegDim.name))
    LstVar.units = 'm3/hour'
    LstVar.long_name = 'longshore transport rate at each transect'
    CstVar = NcFile.createVariable('cst', np.float32, (TimeDim.name, XDim.name))
    CstVar.units = 'm3/hour'
    CstVar.long_name = 'cross-shore transport rate from the shore face to the barrier at each transect'
    OWVar = NcFile.createVariable('overwash_proportion', np.float32, (TimeDim.name, XDim.name))
    OWVar.units = '0 to 1'
    OWVar.long_name = 'proportion of cross-shore transport going over barrier to backshore (as opposed to onto barrier crest)'
    RiverElevVar = NcFile.createVariable('river_bed_z', np.float32, (TimeDim.name, RivDim.name))
    RiverElevVar.units = 'm'
    RiverElevVar.long_name = 'River cross-section bed elevation'
    RiverWlVar = NcFile.createVariable('river_wl', np.float32, (TimeDim.name, RivDim.name))
    RiverWlVar.units = 'm'
    RiverWlVar.long_name = 'River cross-section water level'
    RiverVelVar = NcFile.createVariable('river_vel', np.float32, (TimeDim.name, RivDim.name))
    RiverVelVar.units = 'm/s'
    RiverVelVar.long_name = 'River cross-section mean velocity'
    RiverBedloadVar = NcFile.createVariable('river_bedload', np.float32, (TimeDim.name, RivDim.name))
    RiverBedloadVar.units = 'm3(bulk including voids)/s'
    RiverBedloadVar.long_name = 'River cross-section bedload transport'
    OutletEndXVar = NcFile.createVariable('outlet_end_x', np.float32, (TimeDim.name, EndsDim.name))
    OutletEndXVar.units = 'm'
    OutletEndXVar.long_name = 'Outlet end position'
    OutletEndBVar = NcFile.createVariable('outlet_end_width', np.float32, TimeDim.name)
    OutletEndBVar.units = 'm'
    OutletEndBVar.long_name = 'Outlet end width'
    OutletEndElevVar = NcFile.createVariable('outlet_end_z', np.float32, TimeDim.name)
    OutletEndElevVar.units = 'm'
    OutletEndElevVar.long_name = 'Outlet end bed elevation'
    OutletEndWlVar = NcFile.createVariable('outlet_end_wl', np.float32, TimeDim.name)
    OutletEndWlVar.units = 'm'
    OutletEndWlVar.long_name = 'Outlet end water level'
    OutletEndVelVar = NcFile.createVariable('outlet_end_vel', np.float32, TimeDim.name)
    OutletEndVelVar.units = 'm/s'
    OutletEndVelVar.long_name = 'Outlet end velocity (+ve = outflowing i.e. towards sea)'
    OutletEndBedloadVar = NcFile.createVariable('outlet_end_bedload', np.float32, TimeDim.name)
    OutletEndBedloadVar.units = 'm3(bulk including voids)/s'
    OutletEndBedloadVar.long_name = 'bedlaod transport at outlet channel ends (+ve = outflowing i.e. towards sea)'
    DummyXsWlVar = NcFile.createVariable('dummy_xs_dep', np.float32, TimeDim.name)
    DummyXsWlVar.units = 'm'
    DummyXsWlVar.long_name = 'Dummy XS water depth (downstream of outlet i.e. in sea)'
    DummyXsVelVar = NcFile.createVariable('dummy_xs_vel', np.float32, TimeDim.name)
    DummyXsVelVar.units = 'm/s'
    DummyXsVelVar.long_name = 'Dummy XS velocity (downstream of outlet i.e. in sea, +ve = outflowing i.e. towards sea)'
    OutletClosedVar = NcFile.createVariable('outlet_closed', 'i1', TimeDim.name)
    OutletClosedVar.units = ''
    OutletClosedVar.long_name = 'Outlet status: true=closed, false=open'
    NcFile.close()

def writeCurrent(FileName, CurrentTime, SeaLevel, RivFlow, Hs_offshore, EDir_h, ShoreY, ShoreZ, LagoonWL, LagoonVel, LagoonBedload, OutletDep, OutletVel, OutletBedload, LST, CST, OverwashProp, RiverElev, RiverDep, RiverVel, RiverBedload, OutletEndX, OutletEndElev, OutletEndWidth, OutletEndDep, OutletEndVel, OutletEndBedload, Closed):
    NcFile = netCDF4.Dataset(FileName, mode='a')
    TimeVar = NcFile.variables['time']
    TimeIx = TimeVar.size
    TimeVar[TimeIx] = netCDF4.date2num(CurrentTime, TimeVar.units)
    NcFile.variables['sea_level'][TimeIx] = SeaLevel
    NcFile.variables['river_flow'][TimeIx] = RivFlow
    NcFile.variables['hs_offshore'][TimeIx] = Hs_offshore
    NcFile.variables['wave_dir'][TimeIx] = EDir_h
    NcFile.variables['shoreline_y'][TimeIx, :] = ShoreY[:, 0]
    NcFile.variables['outlet_bank1_y'][TimeIx, :] = ShoreY[:, 1]
    NcFile.variables['outlet_bank2_y'][TimeIx, :] = ShoreY[:, 2]
    NcFile.variables['lagoon_y'][TimeIx, :] = ShoreY[:, 3]
    NcFile.variables['cliff_y'][TimeIx, :] = ShoreY[:, 4]
    NcFile.variables['barrier_crest_z'][TimeIx, :] = ShoreZ[:, 0]
    NcFile.variables['outlet_bed_z'][TimeIx, :] = ShoreZ[:, 1]
    NcFile.variables['inner_barrier_crest_z'][TimeIx, :] = ShoreZ[:, 2]
    NcFile.variables['lagoon_bed_z'][TimeIx, :] = ShoreZ[:, 3]
    NcFile.variables['lagoon_wl'][TimeIx, :] = LagoonWL
    NcFile.variables['lagoon_vel'][TimeIx, :] = LagoonVel
    NcFile.variables['lagoon_bedload'][TimeIx, :] = LagoonBedload
    NcFile.variables['outlet_wl'][TimeIx, :] = OutletDep + ShoreZ[:, 1]
    NcFile.variables['outlet_vel'][TimeIx, :] = OutletVel
    NcFile.variables['outlet_bedload'][TimeIx, :] = OutletBedload
    NcFile.variables['cst'][TimeIx, :] = CST * 3600
    NcFile.variables['overwash_proportion'][TimeIx, :] = OverwashProp
    NcFile.variables['lst'][TimeIx, :] = LST * 3600
    NcFile.variables['river_bed_z'][TimeIx, :] = RiverElev
    NcFile.variables['river_wl'][TimeIx, :] = RiverElev + RiverDep
    NcFile.variables['river_vel'][TimeIx, :] = RiverVel
    NcFile.variables['river_bedload'][TimeIx, :] = RiverBedload
    NcFile.variables['outlet_end_x'][TimeIx, :] = OutletEndX
    NcFile.variables['outlet_end_width'][TimeIx] = OutletEndWidth
    NcFile.variables['outlet_end_z'][TimeIx] = OutletEndElev
    NcFile.variables['outlet_end_wl'][TimeIx] = OutletEndElev + OutletEndDep[0]
    NcFile.variables['outlet_end_vel'][TimeIx] = OutletEndVel[0]
    NcFile.variables['outlet_end_bedload'][TimeIx] = np.ravel(OutletEndBedload)[0]
    NcFile.variables['dummy_xs_dep'][TimeIx] = OutletEndDep[1]
    NcFile.variables['dummy_xs_vel'][TimeIx] = OutletEndVel[1]
    NcFile.variables['outlet_closed'][TimeIx] = Closed
    NcFile.close()

def readTimestep(NcFile, TimeIx):
    NTransects = NcFile.dimensions['transect_x'].size
    SeaLevel = NcFile.variables['sea_level'][TimeIx]
    RivFlow = NcFile.variables['river_flow'][TimeIx]
    Hs_offshore = NcFile.variables['hs_offshore'][TimeIx]
    EDir_h = NcFile.variables['wave_dir'][TimeIx]
    ShoreX = NcFile.variables['transect_x'][:]
    ModelTime = netCDF4.num2date(NcFile.variables['time'][TimeIx], NcFile.variables['time'].units, only_use_cftime_datetimes=False)
    ShoreY = np.empty((NTransects, 5))
    ShoreY[:, 0] = NcFile.variables['shoreline_y'][TimeIx, :]
    ShoreY[:, 1] = NcFile.variables['outlet_bank1_y'][TimeIx, :]
    ShoreY[:, 2] = NcFile.variables['outlet_bank2_y'][TimeIx, :]
    ShoreY[:, 3] = NcFile.variables['lagoon_y'][TimeIx, :]
    ShoreY[:, 4] = NcFile.variables['cliff_y'][TimeIx, :]
    ShoreZ = np.empty((NTransects, 4))
    ShoreZ[:, 0] = NcFile.variables['barrier_crest_z'][TimeIx, :]
    ShoreZ[:, 1] = NcFile.variables['outlet_bed_z'][TimeIx, :]
    ShoreZ[:, 2] = NcFile.variables['inner_barrier_crest_z'][TimeIx, :]
    ShoreZ[:, 3] = NcFile.variables['lagoon_bed_z'][TimeIx, :]
    LagoonWL = NcFile.variables['lagoon_wl'][TimeIx, :].squeeze()
    LagoonVel = NcFile.variables['lagoon_vel'][TimeIx, :].squeeze()
    OutletWL = NcFile.variables['outlet_wl'][TimeIx, :].squeeze()
    OutletVel = NcFile.variables['outlet_vel'][TimeIx, :].squeeze()
    OutletEndX = NcFile.variables['outlet_end_x'][TimeIx, :].squeeze()
    OutletEndWidth = np.asarray(NcFile.variables['outlet_end_width'][TimeIx].squeeze())
    OutletEndElev = np.asarray(NcFile.variables['outlet_end_z'][TimeIx].squeeze())
    OutletEndVel = np.asarray(NcFile.variables['outlet_end_vel'][TimeIx].squeeze())
    OutletEndWL = np.asarray(NcFile.variables['outlet_end_wl'][TimeIx].squeeze())
    DummyXsDep = np.asarray(NcFile.variables['dummy_xs_dep'][TimeIx].squeeze())
    DummyXsVel = np.asarray(NcFile.variables['dummy_xs_vel'][TimeIx].squeeze())
    Closed = bool(NcFile.variables['outlet_closed'][TimeIx])
    WavePower = None
    LST = NcFile.variables['lst'][TimeIx, :] / 3600
    CST = NcFile.variables['cst'][TimeIx, :] / 3600
    RiverElev = NcFile.variables['river_bed_z'][TimeIx, :].squeeze()
    RiverWL = NcFile.variables['river_wl'][TimeIx, :].squeeze()
    RiverVel = NcFile.variables['river_vel'][TimeIx, :].squeeze()
    if Closed:
        OutletChanIx = np.empty(0)
    elif OutletEndX[0] < OutletEndX[1]:
        OutletChanIx = np.where(np.logical_and(OutletEndX[0] <= ShoreX, ShoreX <= OutletEndX[1]))[0]
    else:
        OutletChanIx = np.flipud(np.where(np.logical_and(OutletEndX[1] <= ShoreX, ShoreX <= OutletEndX[0]))[0])
    return (SeaLevel, RivFlow, Hs_offshore, EDir_h, ShoreX, ShoreY, ShoreZ, LagoonWL, LagoonVel, OutletWL, OutletVel, OutletEndX, OutletEndWidth, OutletEndElev, OutletEndVel, OutletEndWL, DummyXsDep, DummyXsVel, OutletChanIx, WavePower, EDir_h, LST, CST, Closed, RiverElev, RiverWL, RiverVel, ModelTime)

def closestTimeIx(NcFile, DatetimeOfInterest):
    NetCdfTimes = NcFile.variables['time'][:]
    OutputTimes = pd.to_datetime(netCDF4.num2date(NetCdfTimes, NcFile.variables['time'].units, only_use_cftime_datetimes=False))
    TimeDiffs = abs(OutputTimes - DatetimeOfInterest)
    TimeIx = np.argmin(TimeDiffs)
    ClosestTime = OutputTimes[TimeIx].to_pydatetime()
    return (TimeIx, ClosestTime)

def newTsOutFile(FileName, ModelName, StartTime, Overwrite=False):
    if os.path.isfile(FileName):
        if not Overwrite:
            Confirm = input('Confirm ok to overwrite "%s" (y/n):' % FileName)
            Overwrite = Confirm in ['Y', 'y', 'Yes', 'yes', 'YES']
        if Overwrite:
            os.remove(FileName)
            pass
        else:
            raise Exception('Conflict with existing output file "%s"' % FileName)
    else:
        pass
    NcFile = netCDF4.Dataset(FileName, mode='w', format='NETCDF4_CLASSIC')
    TimeDim = NcFile.createDimension('time', None)
    EndsDim = NcFile.createDimension('outlet_ends', 2)
    NcFile.ModelName = ModelName
    NcFile.ModelStartTime = datetime.datetime.now().strftime('%Y-%m-%d %H:%M:%S')
    TimeVar = NcFile.createVariable(TimeDim.name, np.float64, (TimeDim.name,))
    TimeVar.units = 'seconds since %s' % StartTime.strftime('%Y-%m-%d')
    TimeVar.calendar = 'standard'
    TimeVar.long_name = 'Model output times'
    SeaLevelVar = NcFile.createVariable('sea_level', np.float32, (TimeDim.name,))
    SeaLevelVar.units = 'm'
    SeaLevelVar.long_name = 'Sea level'
    RiverFlowVar = NcFile.createVariable('river_flow', np.float32, (TimeDim.name,))
    RiverFlowVar.units = 'm3/s'
    RiverFlowVar.long_name = 'River flow upstream of hapua'
    WaveHeightVar = NcFile.createVariable('hs_offshore', np.float32, (TimeDim.name,))
    WaveHeightVar.units = 'm'
    WaveHeightVar.long_name = 'Offshore significant wave height'
    WaveDirVar = NcFile.createVariable('wave_dir', np.float32, (TimeDim.name,))
    WaveDirVar.units = 'radians'
    WaveDirVar.long_name = 'Direction of wave energy at model input point (depth=WaveDataDepth), relative to shore normal'
    LagoonLevelVar = NcFile.createVariable('lagoon_level', np.float32, (TimeDim.name,))
    LagoonLevelVar.units = 'm'
    LagoonLevelVar.long_name = 'Mean lagoon water level'
    LagoonOutflowVar = NcFile.createVariable('lagoon_outflow', np.float32, (TimeDim.name,))
    LagoonOutflowVar.units = 'm3/s'
    LagoonOutflowVar.long_name = 'Lagoon outflow to ocean (negative value = inflow from ocean to lagoon)'
    SedInflowVar = NcFile.createVariable('sed_inflow', np.float32, (TimeDim.name,))
    SedInflowVar.units = 'm3/s'
    SedInflowVar.long_name = 'Bedload transport into upstream end of modelled river reach'
    OutletEndXVar = NcFile.createVariable('outlet_end_x', np.float32, (TimeDim.name, EndsDim.name))
    OutletEndXVar.units = 'm'
    OutletEndXVar.long_name = 'Outlet end position'
    OutletClosedVar = NcFile.createVariable('outlet_closed', 'i1', TimeDim.name)
    OutletClosedVar.units = ''
    OutletClosedVar.long_name = 'Outlet status: true=closed, false=open'
    MorDtVar = NcFile.createVariable('mordt', np.float32, (TimeDim.name,))
    MorDtVar.units = 's'
    MorDtVar.long_name = 'Morphological timestep'
    NcFile.close()

def writeTsOut(FileName, CurrentTime, SeaLevel, RivFlow, Hs_offshore, EDir_h, MeanLagoonWl, LagOutflow, SedInflow, OutletEndX, Closed, MorDt):
    NcFile = netCDF4.Dataset(FileName, mode='a')
    TimeVar = NcFile.variables['time']
    TimeIx = TimeVar.size
    TimeVar[TimeIx] = netCDF4.date2num(CurrentTime, TimeVar.units)
    NcFile.variables['sea_level'][TimeIx] = SeaLevel
    NcFile.variables['river_flow'][TimeIx] = RivFlow
    NcFile.variables['hs_offshore'][TimeIx] = Hs_offshore
    NcFile.variables['wave_dir'][TimeIx] = EDir_h
    NcFile.variables['lagoon_level'][TimeIx] = MeanLagoonWl
    NcFile.variables['lagoon_outflow'][TimeIx] = LagOutflow
    NcFile.variables['sed_inflow'][TimeIx] = SedInflow
    NcFile.variables['outlet_end_x'][TimeIx, :] = OutletEndX
    NcFile.variables['outlet_closed'][TimeIx] = Closed
    NcFile.variables['mordt'][TimeIx] = MorDt.total_seconds()
    NcFile.close()

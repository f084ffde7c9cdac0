"""Reference model of loadmod."""
import pandas as pd
import numpy as np
import datetime
import math
from configobj import ConfigObj, flatten_errors
from validate import Validator
import os
import shapefile
import logging
import netCDF4
import pkg_resources
import errno
from . import geom
from . import out
from . import synth

class ConfigError(Exception):

    def __init__(self, message):
        self.message = message

def loadModel(ModelConfigFile):
    if not os.path.isfile(ModelConfigFile):
        pass
        raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), ModelConfigFile)
    ConfigSpecFile = pkg_resources.resource_filename(__name__, 'configspec.cnf')
    pass
    Config = ConfigObj(ModelConfigFile, configspec=ConfigSpecFile)
    validator = Validator()
    ValidationResult = Config.validate(validator)
    if ValidationResult != True:
        for section_list, key, _ in flatten_errors(Config, ValidationResult):
            if key is not None:
                raise ConfigError('The "%s" key in the section "%s" failed validation' % (key, ', '.join(section_list)))
            else:
                raise ConfigError('The following section was missing:%s ' % ', '.join(section_list))
    ModelName = Config['ModelName']
    ConfigFilePath, ConfigFileName = os.path.split(ModelConfigFile)
    pass
    TimePars = {'StartTime': pd.to_datetime(Config['Time']['StartTime']), 'EndTime': pd.to_datetime(Config['Time']['EndTime']), 'HydDt': pd.Timedelta(seconds=Config['Time']['HydDt']), 'MorDtMin': pd.Timedelta(seconds=Config['Time']['MorDtMin']), 'MorDtMax': pd.Timedelta(seconds=Config['Time']['MorDtMax'])}
    pass
    PhysicalPars = Config['PhysicalParameters']
    GammaLST = (PhysicalPars['RhoSed'] - PhysicalPars['RhoSea']) * PhysicalPars['Gravity'] * (1 - PhysicalPars['VoidRatio'])
    PhysicalPars['K2coef'] = PhysicalPars['Kcoef'] / GammaLST
    PhysicalPars['BreakerCoef'] = 8.0 / (PhysicalPars['RhoSea'] * PhysicalPars['Gravity'] ** 1.5 * PhysicalPars['GammaRatio'] ** 2.0)
    PhysicalPars['BarRatSlope'] = (PhysicalPars['TargetBarHeight'] - PhysicalPars['BeachTopElev']) / (PhysicalPars['TargetBarWidth'] - PhysicalPars['SpitWidth'])
    PhysicalPars['BarRatInt'] = PhysicalPars['BeachTopElev'] - PhysicalPars['BarRatSlope'] * PhysicalPars['SpitWidth']
    NumericalPars = Config['NumericalParameters']
    Dx = NumericalPars['Dx']
    if Config['HotStart']['InitialConditionsNetCDF'] is None:
        pass
        IniCond = Config['InitialConditions']
        RiverElev = np.flipud(np.arange(IniCond['LagoonBed'], IniCond['LagoonBed'] + PhysicalPars['RiverSlope'] * PhysicalPars['UpstreamLength'], PhysicalPars['RiverSlope'] * Dx))
    if Config['HotStart']['InitialConditionsNetCDF'] is not None:
        Config['HotStart']['InitialConditionsNetCDF'] = os.path.join(ConfigFilePath, Config['HotStart']['InitialConditionsNetCDF'])
        pass
        NcFile = netCDF4.Dataset(Config['HotStart']['InitialConditionsNetCDF'], mode='r', format='NETCDF4_CLASSIC')
        DatetimeOfInterest = pd.to_datetime(Config['HotStart']['HotStartTime'])
        TimeIx, ActualHotStartTime = out.closestTimeIx(NcFile, DatetimeOfInterest)
        pass
        SeaLevel, RivFlow, Hs_offshore, EDir_h, ShoreX, ShoreY, ShoreZ, LagoonWL, LagoonVel, OutletWL, OutletVel, OutletEndX, OutletEndWidth, OutletEndElev, OutletEndVel, OutletEndWL, DummyXsDep, DummyXsVel, OutletChanIx, WavePower, EDir_h, LST, CST, Closed, RiverElev, RiverWL, RiverVel, ModelTime = out.readTimestep(NcFile, TimeIx)
        Origin = np.array([NcFile.ModelOriginX, NcFile.ModelOriginY])
        ShoreNormDir = np.deg2rad(NcFile.ModelOrientation)
        NcFile.close()
        assert ShoreX[1] - ShoreX[0] == Dx, 'Dx specified in model config file must match hotstart file'
    elif Config['SpatialInputs']['Shoreline'] is None:
        pass
        assert Config['SpatialInputs']['ShorelineLengthLeft'] is not None, 'ShorelineLengthLeft is required in [SpatialInputs]'
        assert Config['SpatialInputs']['ShorelineLengthRight'] is not None, 'ShorelineLengthRight is required in [SpatialInputs]'
        assert Config['SpatialInputs']['BeachWidth'] is not None, 'BeachWidth is required in [SpatialInputs]'
        Origin = np.zeros(2)
        ShoreNormDir = 0.0
        ShoreX = np.arange(math.floor(-Config['SpatialInputs']['ShorelineLengthLeft'] / Dx) * Dx, Config['SpatialInputs']['ShorelineLengthRight'] + Dx, Dx)
        ShoreY = np.full([ShoreX.size, 5], np.nan)
        ShoreZ = np.full([ShoreX.size, 4], np.nan)
        ShoreY[:, 0] = 0.0
        ShoreY[:, 3] = -Config['SpatialInputs']['BeachWidth']
        ShoreY[:, 4] = -Config['SpatialInputs']['BeachWidth']
        ShoreZ[:, 0] = IniCond['BarrierElev']
        Closed = False
        OutletEndX = np.asarray([0.0, 0.0])
        OutletEndWidth = np.asarray(IniCond['OutletWidth'])
        OutletEndElev = np.asarray(IniCond['OutletBed'])
        LagoonMask = ShoreX == 0
        ShoreY[LagoonMask, 1] = -PhysicalPars['SpitWidth']
        ShoreY[LagoonMask, 2] = ShoreY[LagoonMask, 1] - IniCond['OutletWidth']
        ShoreZ[LagoonMask, 1] = (IniCond['OutletBed'] + IniCond['LagoonBed']) / 2
        ShoreZ[LagoonMask, 2] = ShoreZ[LagoonMask, 0]
        ShoreY[LagoonMask, 3] = ShoreY[LagoonMask, 2] - 0.001
        ShoreY[LagoonMask, 4] = ShoreY[LagoonMask, 2] - PhysicalPars['RiverWidth']
        ShoreZ[:, 3] = IniCond['LagoonBed']
    else:
        Config['SpatialInputs']['Shoreline'] = os.path.join(ConfigFilePath, Config['SpatialInputs']['Shoreline'])
        pass
        ShoreShp = shapefile.Reader(Config['SpatialInputs']['Shoreline'])
        assert ShoreShp.shapeType == 3, 'Shoreline shapefile must be a polyline.'
        assert len(ShoreShp.shapes()) == 1, 'multiple polylines in Shoreline shapefile. There should only be 1.'
        IniShoreCoords = np.asarray(ShoreShp.shape(0).points[:])
        Config['SpatialInputs']['RiverLocation'] = os.path.join(ConfigFilePath, Config['SpatialInputs']['RiverLocation'])
        pass
        RiverShp = shapefile.Reader(Config['SpatialInputs']['RiverLocation'])
        assert RiverShp.shapeType == 1, 'Shoreline shapefile must be a point.'
        assert len(RiverShp.shapes()) == 1, 'multiple points in RiverLocation shapefile. There should only be 1.'
        InflowCoord = np.asarray(RiverShp.shape(0).points[:]).squeeze()
        Config['SpatialInputs']['BarrierBackshore'] = os.path.join(ConfigFilePath, Config['SpatialInputs']['BarrierBackshore'])
        pass
        LagoonShp = shapefile.Reader(Config['SpatialInputs']['BarrierBackshore'])
        assert LagoonShp.shapeType == 3, 'BarrierBackshore must be a polyline shapefile'
        assert len(LagoonShp.shapes()) == 1, 'multiple polygons in BarrierBackshore shapefile. There should only be 1.'
        LagoonCoords = np.asarray(LagoonShp.shape(0).points[:])
        Config['SpatialInputs']['CliffToe'] = os.path.join(ConfigFilePath, Config['SpatialInputs']['CliffToe'])
        pass
        CliffShp = shapefile.Reader(Config['SpatialInputs']['CliffToe'])
        assert CliffShp.shapeType == 3, 'CliffToe must be a polyline shapefile'
        assert len(CliffShp.shapes()) == 1, 'multiple polygons in CliffToe shapefile. There should only be 1.'
        CliffCoords = np.asarray(CliffShp.shape(0).points[:])
        Closed = False
        Config['SpatialInputs']['OutletLocation'] = os.path.join(ConfigFilePath, Config['SpatialInputs']['OutletLocation'])
        pass
        OutletShp = shapefile.Reader(Config['SpatialInputs']['OutletLocation'])
        assert OutletShp.shapeType == 3, 'OutletLocation must be a polyline shapefile'
        assert len(OutletShp.shapes()) == 1, 'multiple polylines in OutletLocation. You can only specify a single initial outlet.'
        OutletCoords = np.asarray(OutletShp.shape(0).points[:])
        pass
        Baseline = np.polyfit(IniShoreCoords[:, 0], IniShoreCoords[:, 1], 1)
        Origin = np.empty(2)
        Origin[0] = (InflowCoord[1] + InflowCoord[0] / Baseline[0] - Baseline[1]) / (Baseline[0] + 1 / Baseline[0])
        Origin[1] = Origin[0] * Baseline[0] + Baseline[1]
        if InflowCoord[1] > InflowCoord[0] * Baseline[0] + Baseline[1]:
            ShoreNormDir = math.atan2(Baseline[0], -1)
        else:
            ShoreNormDir = math.atan2(-Baseline[0], 1)
        IniShoreCoords2 = np.empty(IniShoreCoords.shape)
        IniShoreCoords2[:, 0], IniShoreCoords2[:, 1] = geom.real2mod(IniShoreCoords[:, 0], IniShoreCoords[:, 1], Origin, ShoreNormDir)
        if IniShoreCoords2[0, 0] > IniShoreCoords2[-1, 0]:
            IniShoreCoords2 = IniShoreCoords2 = np.flipud(IniShoreCoords2)
        assert np.all(np.diff(IniShoreCoords2[:, 0]) > 0), 'Shoreline includes recurvature incompatible with model coordinate system'
        ShoreX = np.arange(math.ceil(IniShoreCoords2[0, 0] / Dx) * Dx, IniShoreCoords2[-1, 0], Dx)
        ShoreY = np.full([ShoreX.size, 5], np.nan)
        ShoreZ = np.full([ShoreX.size, 4], np.nan)
        ShoreY[:, 0] = np.interp(ShoreX, IniShoreCoords2[:, 0], IniShoreCoords2[:, 1])
        LagoonCoords2 = np.empty(LagoonCoords.shape)
        LagoonCoords2[:, 0], LagoonCoords2[:, 1] = geom.real2mod(LagoonCoords[:, 0], LagoonCoords[:, 1], Origin, ShoreNormDir)
        CliffCoords2 = np.empty(CliffCoords.shape)
        CliffCoords2[:, 0], CliffCoords2[:, 1] = geom.real2mod(CliffCoords[:, 0], CliffCoords[:, 1], Origin, ShoreNormDir)
        OutletCoords2 = np.empty(OutletCoords.shape)
        OutletCoords2[:, 0], OutletCoords2[:, 1] = geom.real2mod(OutletCoords[:, 0], OutletCoords[:, 1], Origin, ShoreNormDir)
        LagoonExtent = [np.amin(LagoonCoords2[:, 0]), np.amax(LagoonCoords2[:, 0])]
        assert LagoonExtent[1] < ShoreX[-1] and LagoonExtent[0] > ShoreX[0], 'Lagoon exdends beyond shoreline extent. Extend shoreline shapefile to cover full extent of lagoon.'
        OutletExtent = [np.amin(OutletCoords2[:, 0]), np.amax(OutletCoords2[:, 0])]
        if OutletCoords2[0, 1] > OutletCoords2[-1, 1]:
            OutletCoords2 = np.flipud(OutletCoords2)
        for ii in range(ShoreX.size):
            YIntersects = geom.intersectPolyline(CliffCoords2, ShoreX[ii])
            ShoreY[ii, 4] = np.amax(YIntersects)
            if LagoonExtent[0] < ShoreX[ii] < LagoonExtent[1]:
                YIntersects = geom.intersectPolyline(LagoonCoords2, ShoreX[ii])
                ShoreY[ii, 3] = np.amax(YIntersects)
            else:
                ShoreY[ii, 3] = ShoreY[ii, 4]
            if OutletExtent[0] < ShoreX[ii] < OutletExtent[1]:
                YIntersects = geom.intersectPolyline(OutletCoords2, ShoreX[ii])
                assert YIntersects.size == 1, 'Check/simplify outlet channel - possible weird recurvature?'
                if (np.isnan(ShoreY[ii, 3]) or YIntersects[0] - IniCond['OutletWidth'] / 2 > ShoreY[ii, 3]) and YIntersects[0] + IniCond['OutletWidth'] / 2 < ShoreY[ii, 0]:
                    ShoreY[ii, 2] = YIntersects[0] - IniCond['OutletWidth'] / 2
                    ShoreY[ii, 1] = YIntersects[0] + IniCond['OutletWidth'] / 2
        OutletToR = OutletCoords2[0, 0] < OutletCoords2[-1, 0]
        OutletMask = np.logical_not(np.isnan(ShoreY[:, 1]))
        OutletEndX = np.empty([2])
        if np.all(np.logical_not(OutletMask)):
            if OutletToR:
                OutletEndX[0] = Dx * (np.mean(OutletCoords2[:, 0]) // Dx)
                OutletEndX[1] = OutletEndX[0] + Dx / 2
            else:
                OutletEndX[0] = Dx * (np.mean(OutletCoords2[:, 0]) // Dx + 1)
                OutletEndX[1] = OutletEndX[0] - Dx / 2
            OutletMask = ShoreX == OutletEndX[0]
            assert np.sum(OutletMask) == 1, 'Number of outlet transects for straight outlet not equal to 1 in loadModel'
            ShoreY[OutletMask, 1] = min(ShoreY[OutletMask, 0] - PhysicalPars['SpitWidth'], (ShoreY[OutletMask, 0] + ShoreY[OutletMask, 3]) / 2 + IniCond['OutletWidth'] / 2)
            ShoreY[OutletMask, 2] = ShoreY[OutletMask, 1] - IniCond['OutletWidth']
            ShoreY[OutletMask, 3] = min(ShoreY[OutletMask, 2] - 0.001, ShoreY[OutletMask, 3])
        elif OutletToR:
            OutletEndX[0] = np.min(ShoreX[OutletMask])
            OutletEndX[1] = np.max(ShoreX[OutletMask]) + Dx / 2
        else:
            OutletEndX[0] = np.max(ShoreX[OutletMask])
            OutletEndX[1] = np.min(ShoreX[OutletMask]) - Dx / 2
        OutletEndWidth = np.asarray(IniCond['OutletWidth'])
        ShoreZ[:, 3] = np.full(ShoreX.size, IniCond['LagoonBed'])
        BedLevel = np.linspace(IniCond['LagoonBed'], IniCond['OutletBed'], np.sum(OutletMask) + 1)
        if OutletToR:
            ShoreZ[OutletMask, 1] = BedLevel[:-1]
        else:
            ShoreZ[OutletMask, 1] = np.flipud(BedLevel[:-1])
        OutletEndElev = np.asarray(BedLevel[-1])
        ShoreZ[:, 0] = np.full(ShoreX.size, IniCond['BarrierElev'])
        ShoreZ[OutletMask, 2] = np.full(np.sum(OutletMask), IniCond['BarrierElev'])
    if Config['HotStart']['InitialConditionsNetCDF'] is not None:
        OutletDep = OutletWL - ShoreZ[:, 1]
        OutletEndDep = np.array([OutletEndWL - OutletEndElev, DummyXsDep])
        OutletEndVel = np.array([OutletEndVel, DummyXsVel])
    else:
        RiverWL = np.zeros(RiverElev.size)
        RiverVel = np.zeros(RiverElev.size)
        LagoonWL = np.zeros(ShoreX.size)
        LagoonVel = np.zeros(ShoreX.size)
        OutletDep = np.zeros(ShoreX.size)
        OutletVel = np.zeros(ShoreX.size)
        OutletEndDep = np.zeros(2)
        OutletEndVel = np.zeros(2)
    to_datetime = lambda d: datetime.datetime.strptime(d, '%d/%m/%Y %H:%M')
    if Config['BoundaryConditions']['RiverFlow'].lower() == 'shotnoise':
        pass
        SNPars = Config['BoundaryConditions']['ShotnoiseHydrographParameters']
        if SNPars['HydrographStart'] is not None:
            HydrographStart = pd.to_datetime(SNPars['HydrographStart'])
        else:
            HydrographStart = TimePars['StartTime']
        FlowTs = synth.shotNoise(HydrographStart, TimePars['EndTime'], pd.Timedelta(minutes=SNPars['HydrographDt']), pd.Timedelta(days=SNPars['MeanDaysBetweenEvents']), SNPars['MeanEventIncrease'], SNPars['FastDecayRate'], SNPars['FastFlowProp'], SNPars['SlowDecayRate'], pd.Timedelta(days=SNPars['RisingLimbTime']), RandomSeed=SNPars['RandomSeed'])
    else:
        Config['BoundaryConditions']['RiverFlow'] = os.path.join(ConfigFilePath, Config['BoundaryConditions']['RiverFlow'])
        pass
        FlowTs = pd.read_csv(Config['BoundaryConditions']['RiverFlow'], index_col=0, parse_dates=[0], date_parser=to_datetime)
        FlowTs = FlowTs.Flow
    Config['BoundaryConditions']['WaveConditions'] = os.path.join(ConfigFilePath, Config['BoundaryConditions']['WaveConditions'])
    pass
    WaveTs = pd.read_csv(Config['BoundaryConditions']['WaveConditions'], index_col=0, parse_dates=[0], date_parser=to_datetime)
    WaveTs.EDir_h = np.deg2rad(WaveTs.EDir_h) - ShoreNormDir
    WaveTs.EDir_h = np.mod(WaveTs.EDir_h + np.pi, 2.0 * np.pi) - np.pi
    if Config['BoundaryConditions']['SeaLevel'].lower() == 'harmonic':
        pass
        HTPars = Config['BoundaryConditions']['HarmonicTideParameters']
        SeaLevelTs = synth.harmonicTide(TimePars['StartTime'], TimePars['EndTime'], pd.Timedelta(minutes=HTPars['SeaLevelDt']), HTPars['MeanSeaLevel'], HTPars['TidalRange'])
    else:
        Config['BoundaryConditions']['SeaLevel'] = os.path.join(ConfigFilePath, Config['BoundaryConditions']['SeaLevel'])
        pass
        SeaLevelTs = pd.read_csv(Config['BoundaryConditions']['SeaLevel'], index_col=0, parse_dates=[0], date_parser=to_datetime)
        SeaLevelTs = SeaLevelTs.SeaLevel
    if Config['HotStart']['InitialConditionsNetCDF'] is not None:
        if Config['HotStart']['ContinueSimulation']:
            pass
            TimePars['StartTime'] = ActualHotStartTime
    assert FlowTs.index[0] <= TimePars['StartTime'] and FlowTs.index[-1] >= TimePars['EndTime'], 'Flow timeseries %s does not extend over full model duration' % Config['BoundaryConditions']['RiverFlow']
    KeepTimes = np.ones(FlowTs.shape[0], dtype=bool)
    KeepTimes[:-1] &= FlowTs.index[1:] > TimePars['StartTime']
    KeepTimes[1:] &= FlowTs.index[:-1] < TimePars['EndTime'] + TimePars['MorDtMax']
    FlowTs = FlowTs[KeepTimes]
    assert WaveTs.index[0] <= TimePars['StartTime'] and WaveTs.index[-1] >= TimePars['EndTime'], 'Wave timeseries %s does not extend over full model duration' % Config['BoundaryConditions']['WaveConditions']
    KeepTimes = np.ones(WaveTs.shape[0], dtype=bool)
    KeepTimes[:-1] &= WaveTs.index[1:] > TimePars['StartTime']
    KeepTimes[1:] &= WaveTs.index[:-1] < TimePars['EndTime'] + TimePars['MorDtMax']
    WaveTs = WaveTs[KeepTimes]
    assert SeaLevelTs.index[0] <= TimePars['StartTime'] and SeaLevelTs.index[-1] >= TimePars['EndTime'], 'Sea level timeseries %s does not extend over full model duration' % Config['BoundaryConditions']['SeaLevel']
    KeepTimes = np.ones(SeaLevelTs.shape[0], dtype=bool)
    KeepTimes[:-1] &= SeaLevelTs.index[1:] > TimePars['StartTime']
    KeepTimes[1:] &= SeaLevelTs.index[:-1] < TimePars['EndTime'] + TimePars['MorDtMax']
    SeaLevelTs = SeaLevelTs[KeepTimes]
    if Config['OutputOptions']['OutFile'] is None:
        OutFile = os.path.splitext(ConfigFileName)[0] + '_outputs.nc'
    else:
        OutFile = Config['OutputOptions']['OutFile']
    if Config['OutputOptions']['TsOutFile'] is None:
        TsOutFile = os.path.splitext(ConfigFileName)[0] + '_TSoutputs.nc'
    else:
        TsOutFile = Config['OutputOptions']['TsOutFile']
    OutputOpts = {'OutFile': OutFile, 'TsOutFile': TsOutFile, 'OutInt': pd.Timedelta(seconds=Config['OutputOptions']['OutInt']), 'TsOutInt': pd.Timedelta(seconds=Config['OutputOptions']['TsOutInt']), 'LogInt': pd.Timedelta(seconds=Config['OutputOptions']['LogInt']), 'PlotInt': pd.Timedelta(seconds=Config['OutputOptions']['PlotInt'])}
    return (ModelName, FlowTs, WaveTs, SeaLevelTs, Origin, ShoreNormDir, ShoreX, ShoreY, ShoreZ, RiverElev, OutletEndX, OutletEndWidth, OutletEndElev, RiverWL, RiverVel, LagoonWL, LagoonVel, OutletDep, OutletVel, OutletEndDep, OutletEndVel, Closed, TimePars, PhysicalPars, NumericalPars, OutputOpts)

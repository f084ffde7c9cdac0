"""Which functions carry which property, with the declared types of their arguments."""

SY = {'ShoreY': 'mat:n,5', 'ShoreZ': 'mat:n,5', 'ShoreX': 'vec:n', 'PhysicalPars': 'dict'}


class Fun(object):
    """compare function fn with its reference model"""

    def __init__(self, fn, types=None, opaque=None, sinks=('ret', 'args'), init=None, only=None, model=None, kinds=None,
                 names=None, cfg=None, tag='', stages=(), tells=()):
        self.tells = frozenset(tells)     # a difference counts only if the code's term has an operation of these the model's lacks
        self.tag = tag
        self.stages = frozenset(stages)   # parts of the reference model the claim is about
        self.fn, self.types, self.opaque, self.sinks = fn, dict(types or {}), opaque or {}, sinks
        self.init, self.only, self.model, self.kinds, self.names = init, only, model or fn, kinds, names
        self.cfg = cfg


class Rule(object):
    """structural rule: function(pkg, report) -> None"""

    def __init__(self, name, f):
        self.name, self.f = name, f


CHECKS = {}


def claim(prop, *items):
    CHECKS.setdefault(prop, []).extend(items)


claim('P31', Fun('coast.longShoreTransport', SY))
claim('P33', Fun('coast.runup', SY), Fun('coast.overtopping', SY, sinks=('ret', 'args', 'assert')))

TECH_VG = 'static value-graph normalisation against a reference model'
NOTE_VG = ('Every value, effect and assertion the functions produce is abstracted from the current source into a normal form '
           'valid for all inputs of the declared shapes and compared with a reference model; assumes real arithmetic and the '
           'modelled meaning of numpy/pandas calls; a pair of terms that uses constructs outside the vocabulary is reported '
           'as undecided in the evidence and raises no alarm.')
TECHNIQUE = {
    'P01': TECH_VG + '; lint of the configuration specification against uses',
    'P02': TECH_VG + '; lint of the configuration specification',
    'P03': TECH_VG + ', counting truncating operations on durations',
    'P13': 'typestate analysis of file handles on the abstracted paths',
    'P14': 'taint analysis from non-configuration sources to results; lint for state kept between calls',
    'P38': TECH_VG + '; lint for truth masks used as index lists',
    'P43': 'effect and alias analysis (final contents of arguments, sharing of results)',
}
NOTE = {
    'P13': ('Every open, close and use of a file handle that the abstracted functions perform is followed on every normal path; '
            'assumes the modelled openers (open, netCDF4.Dataset, shapefile with context) are the ones in use.'),
    'P14': ('Every returned value, written argument and effect is searched for terms that come from the clock, the environment, '
            'unseeded random numbers, uninitialised memory or state kept between calls.'),
}
NOTAPP = {}

RV = {'ChanDx': 'vec:n-1', 'ChanElev': 'vec:n', 'ChanWidth': 'vec:n', 'NumericalPars': 'dict', 'PhysicalPars': 'dict',
      'ChanDep': 'vec:n', 'ChanVel': 'vec:n', 'OnlineLagoon': 'ivec:k', 'OutletChanIx': 'ivec:o', 'ChanFlag': 'ivec:n',
      'LagoonElev': 'vec:m', 'Closed': 'bool', 'z': 'vec:n', 'B': 'vec:n', 'h': 'vec:n', 'V': 'vec:n', 'dx': 'vec:n-1',
      'Bedload': 'vec:n-1', 'NTransects': 'int'}
claim('P25', Fun('riv.solveSteady', RV, sinks=('ret', 'args', 'assert')))
claim('P28', Fun('riv.storeHydraulics', RV), Fun('riv.storeBedload', RV))
claim('P29', Fun('riv.calcBedload', RV))
PR = dict(RV)
PR.update({'Q_Ts': 'vec:t', 'DsWl_Ts': 'vec:t', 'dt': 'obj', 'dx': 'vec:n'})          # at least two sections
PR.update({k: 'vec:n+1' for k in ('z', 'B', 'h', 'V', 'LagArea', 'LagLen')})
for _p in ('P20', 'P21', 'P22', 'P23', 'P24'):
    claim(_p, Fun('riv.solveFullPreissmann', PR, opaque={'riv.solveSteady': {'returns': ['vec:n+1', 'vec:n+1']}},
                  sinks=('ret', 'args', 'assert', 'effects'), kinds=('pkgcall',)))

AC = {'ShoreX': 'vec:n', 'ShoreY': 'mat:n,5', 'ShoreZ': 'mat:n,4', 'OutletEndX': 'vec:2', 'OutletEndWidth': 'num',
      'OutletEndElev': 'num', 'Closed': 'bool', 'RiverElev': 'vec:r', 'RivDep': 'vec:r', 'RivVel': 'vec:r',
      'LagoonWL': 'vec:n', 'LagoonVel': 'vec:n', 'OutletDep': 'vec:n', 'OutletVel': 'vec:n', 'OutletEndDep': 'vec:2',
      'OutletEndVel': 'vec:2', 'Dx': 'num', 'PhysicalPars': 'dict'}
for _p in ('P26', 'P27'):
    claim(_p, Fun('riv.assembleChannel', AC, sinks=('ret', 'args', 'assert')))

GM = {'Polyline': 'mat:n,2', 'LineX': 'vec:n', 'LineY': 'vec:n', 'TrimLineX': 'vec:m', 'StartTrimLineY': 'vec:m',
      'EndTrimLineY': 'vec:m', 'Xmod': 'vec:n', 'Ymod': 'vec:n', 'Xreal': 'vec:n', 'Yreal': 'vec:n', 'Origin': 'vec:2'}
claim('P07', *[Fun('geom.' + f, GM) for f in ('mod2real', 'real2mod', 'intersectPolyline', 'trimLine')])

OU = {'FileName': 'obj', 'ModelName': 'obj', 'StartTime': 'obj', 'ShoreX': 'vec:n', 'RiverElev': 'vec:r', 'Origin': 'vec:2',
      'PhysicalPars': 'dict', 'Overwrite': 'bool', 'CurrentTime': 'obj', 'ShoreY': 'mat:n,5', 'ShoreZ': 'mat:n,4',
      'LagoonWL': 'vec:n', 'LagoonVel': 'vec:n', 'LagoonBedload': 'vec:n', 'OutletDep': 'vec:n', 'OutletVel': 'vec:n',
      'OutletBedload': 'vec:n', 'LST': 'vec:n-1', 'CST': 'vec:n', 'OverwashProp': 'vec:n', 'RiverDep': 'vec:r',
      'RiverVel': 'vec:r', 'RiverBedload': 'vec:r', 'OutletEndX': 'vec:2', 'OutletEndDep': 'vec:2', 'OutletEndVel': 'vec:2',
      'OutletEndBedload': 'vec:2', 'Closed': 'bool', 'NcFile': 'obj', 'TimeIx': 'int', 'DatetimeOfInterest': 'obj',
      'MorDt': 'obj'}
_eff = ('args', 'ret', 'assert', 'raise', 'effects', 'defined')
claim('P10', Fun('out.newOutFile', OU, sinks=_eff), Fun('out.newTsOutFile', OU, sinks=_eff))
# the consent question, for typical answers (the answer is folded as a constant)
for _a in ('y', 'Y', 'yes', 'Yes', 'YES', 'n', 'N', 'no', 'No', 'NO', '', ' ', 'x', 'ok', 'q', 'nope', 'maybe', 'true', '0', '1'):
    claim('P10', *[Fun(f, OU, sinks=('raise', 'effects'), cfg={'input': _a}, tag='(%r)' % _a,
                       only=lambda p: p.startswith('raise') or 'call(os.remove' in p or 'effect call(netCDF4.Dataset' in p or p == 'termination')
                   for f in ('out.newOutFile', 'out.newTsOutFile')])
claim('P11', Fun('out.newOutFile', OU, sinks=_eff), Fun('out.newTsOutFile', OU, sinks=_eff),
      Fun('out.writeCurrent', OU, sinks=_eff), Fun('out.writeTsOut', OU, sinks=_eff))
claim('P12', Fun('out.readTimestep', OU, sinks=_eff), Fun('out.closestTimeIx', OU, sinks=_eff))

SN = {'StartDate': 'obj', 'EndDate': 'obj', 'OutputInt': 'obj', 'MeanTimeBetweenEvents': 'obj', 'RisingLimbTime': 'obj',
      'CalcTimeInt': 'opt obj', 'RandomSeed': 'obj', 'DecayRate2': 'opt num'}
claim('P41', Fun('synth.shotNoise', SN, sinks=_eff))
claim('P40', Fun('synth.harmonicTide', SN, sinks=_eff))
claim('P05', Fun('core.interpolate_at', {'Df': 'obj', 'New_idxs': 'obj'}, sinks=_eff))
LM = {'ModelConfigFile': 'obj'}
_lo = {'synth.shotNoise': None, 'synth.harmonicTide': None, 'out.closestTimeIx': {'returns': ['int', 'obj']},
       'out.readTimestep': {'returns': ['num', 'num', 'num', 'num', 'vec:n', 'mat:n,5', 'mat:n,4'] + ['vec:n'] * 4 + ['vec:2', 'num', 'num', 'num', 'num', 'num', 'num', 'ivec:o', 'obj', 'num', 'vec:n', 'vec:n', 'bool', 'vec:r', 'vec:r', 'vec:r', 'obj']},
       'geom.real2mod': {'returns': ['vec:k', 'vec:k']}, 'geom.intersectPolyline': {'returns': 'vec:'}}


def res(*ks, asserts=(), effects=(), extra=()):
    """filter on the obligations of loadModel: result components, assertions and effects by a part of their label"""
    import re
    rx = re.compile(r'result\[(\d+)\]')

    def f(path):
        m = rx.match(path)
        if m:
            return int(m.group(1)) in ks
        if path.startswith('assert'):
            return any(a in path for a in asserts)
        if path.startswith('effect') or path.startswith('condition of effect'):
            return any(a in path for a in effects)
        if path.startswith(('undef', 'uninit', 'every variable', 'termination', 'result', 'case')):
            return True
        return path in extra
    return f


def load(*a, **k):
    return Fun('loadmod.loadModel', LM, opaque=_lo, sinks=_eff, only=res(*a, **k))


GEO = tuple(range(4, 13))
HYD = tuple(range(13, 22))
_series = ('Flow timeseries', 'Wave timeseries', 'Sea level timeseries', 'loadmod:')
claim('P01', load(0, 22, 23, 24, 25, effects=('PhysicalParameters', 'synth.', 'HotStart', 'SpatialInputs', 'read_csv')))
claim('P02', load(asserts=('',), effects=('validate', 'Validator', 'flatten_errors', 'ConfigObj', 'resource_filename'),
                  extra=('raise condition',)))
claim('P04', load(23, effects=('PhysicalParameters',)))
claim('P05', load(1, 2, 3, asserts=_series))
claim('P06', load(2, 5, effects=('EDir_h',)))
claim('P07', load(4, 5, effects=('real2mod',)))
claim('P08', load(*GEO, 21, asserts=('hapefile', 'Shoreline', 'Lagoon', 'outlet'), effects=('shapefile', 'real2mod', 'SpatialInputs')),
      Fun('geom.intersectPolyline', GM))
claim('P09', load(*GEO, *HYD, asserts=('is required',)))
claim('P12', load(*GEO, *HYD, 22, asserts=('hotstart',), effects=('closestTimeIx', 'readTimestep', 'netCDF4', 'close', 'HotStart')))
claim('P40', load(3, effects=('harmonicTide',)))
claim('P41', load(1, effects=('shotNoise',)))
_ld = ['obj', 'obj', 'obj', 'obj', 'vec:2', 'num', 'vec:n', 'mat:n,5', 'mat:n,4', 'vec:r', 'vec:2', 'num', 'num', 'vec:r', 'vec:r',
       'vec:n', 'vec:n', 'vec:n', 'vec:n', 'vec:2', 'vec:2', 'bool', 'dict', 'dict', 'dict', 'dict']
_co = {'loadmod.loadModel': {'returns': _ld},
       'core.interpolate_at': {'returns': 'obj'},
       'riv.assembleChannel': {'returns': ['vec:c-1', 'vec:c', 'vec:c', 'vec:c', 'vec:c', 'vec:c', 'vec:c', 'ivec:k', 'ivec:o',
                                           'ivec:c', 'bool']},
       'riv.solveSteady': {'returns': ['vec:c', 'vec:c']},
       'riv.storeHydraulics': {'returns': ['vec:n', 'vec:n', 'vec:n', 'vec:n', 'vec:2', 'vec:2']},
       'riv.solveFullPreissmann': {'writes': [5, 6], 'returns': 'obj'},
       'riv.calcBedload': {'returns': 'vec:c-1'},
       'riv.storeBedload': {'returns': ['vec:n', 'vec:n', 'vec:2']},
       'coast.longShoreTransport': {'returns': 'vec:n-1'},
       'coast.runup': {'returns': 'num'},
       'coast.overtopping': {'returns': ['vec:n', 'vec:n']},
       'mor.updateMorphology': {'writes': [1, 2, 3, 4, 5, 6, 7], 'returns': ['obj', 'bool']},
       'visualise.longSection': {'returns': 'obj'}, 'visualise.bdyCndFig': {'returns': 'obj'},
       'visualise.modelView': {'returns': 'obj'}, 'visualise.updateLongSection': {'returns': 'obj'},
       'visualise.updateBdyCndFig': {'returns': 'obj'}, 'visualise.updateModelView': {'returns': 'obj'},
       'out.newOutFile': {'returns': 'obj'}, 'out.writeCurrent': {'returns': 'obj'}, 'out.newTsOutFile': {'returns': 'obj'},
       'out.writeTsOut': {'returns': 'obj'}}


def main(*parts):
    """core.main with every process summarised; filter on the labels of its obligations"""
    def f(path):
        return not parts or path.startswith(('undef', 'uninit', 'termination', 'case')) or any(p in path for p in parts)
    return Fun('core.main', {'ModelConfigFile': 'obj', 'Overwrite': 'bool'}, opaque=_co, sinks=_eff, kinds=('pkgcall', 'call', 'setitem'),
               only=f)


claim('P19', main())
claim('P15', main('MorTime', 'MorDt', 'continues', 'left when', 'interpolate_at', 'solveFullPreissmann', 'updateMorphology', 'loadModel'))
claim('P18', main('OutTime', 'PlotTime', 'writeCurrent', 'writeTsOut', 'newOutFile', 'newTsOutFile', 'visualise', 'storeBedload', '.append',
                  'MorTime', 'continues'))
claim('P16', main('MorDt', 'updateMorphology'))
claim('P05', main('interpolate_at'))
claim('P20', main('solveSteady', 'solveFullPreissmann', 'storeHydraulics', 'next ChanDep', 'next ChanVel'))
claim('P10', main('newOutFile', 'newTsOutFile'))


# ---------------------------------------------------------------- purity
def pure(fn, types, opaque=None):
    return Fun(fn, types, opaque=opaque, sinks=('ret', 'args', 'alias'),
               only=lambda q: not q.startswith(('result', 'assert', 'effect', 'raise')))


claim('P43', *[pure('coast.' + f, SY) for f in ('longShoreTransport', 'runup', 'overtopping')])
claim('P43', *[pure('riv.' + f, RV) for f in ('solveSteady', 'storeHydraulics', 'storeBedload', 'calcBedload')])
claim('P43', pure('riv.assembleChannel', AC))
claim('P43', *[pure('geom.' + f, GM) for f in ('mod2real', 'real2mod', 'intersectPolyline')])
claim('P43', *[pure('out.' + f, OU) for f in ('newOutFile', 'writeCurrent', 'newTsOutFile', 'writeTsOut', 'readTimestep', 'closestTimeIx')])
claim('P43', *[pure('synth.' + f, SN) for f in ('shotNoise', 'harmonicTide')])
claim('P43', pure('core.interpolate_at', {'Df': 'obj', 'New_idxs': 'obj'}))


# ---------------------------------------------------------------- morphology
MO = {'ShoreX': 'vec:n', 'ShoreY': 'mat:n,5', 'ShoreZ': 'mat:n,4', 'OutletEndX': 'vec:2', 'OutletEndWidth': 'arr0',
      'OutletEndElev': 'arr0', 'RiverElev': 'vec:r', 'OnlineLagoon': 'ivec:k', 'OutletChanIx': 'ivec:o', 'LagoonWL': 'vec:n',
      'OutletDep': 'vec:n', 'ChanWidth': 'vec:c', 'ChanDep': 'vec:c', 'ChanDx': 'vec:c-1', 'ChanFlag': 'ivec:c', 'Closed': 'bool',
      'LST': 'vec:n-1', 'Bedload': 'vec:c-1', 'CST_tot': 'vec:n', 'OverwashProp': 'vec:n', 'MorDt': 'obj', 'PhysicalPars': 'dict',
      'TimePars': 'dict', 'NumericalPars': 'dict'}


def mor(*stages, sinks=('ret', 'args', 'assert', 'defined'), only=None):
    return Fun('mor.updateMorphology', MO, sinks=sinks, cfg={'adef': 1}, stages=stages, only=only)


for _p in ('P16', 'P17', 'P30', 'P32', 'P34', 'P35', 'P36', 'P37', 'P38', 'P39'):
    claim(_p, mor(_p))
claim('P43', Fun('mor.updateMorphology', MO, sinks=('args',), cfg={'adef': 1}, only=lambda q: q in (
    'ShoreX', 'OnlineLagoon', 'OutletChanIx', 'LagoonWL', 'OutletDep', 'ChanWidth', 'ChanDep', 'ChanDx', 'ChanFlag', 'LST',
    'Bedload', 'CST_tot', 'OverwashProp', 'MorDt', 'PhysicalPars', 'TimePars', 'NumericalPars')))

# ---------------------------------------------------------------- plots
VI = {'ModelFig': 'dict', 'LongSecFig': 'dict', 'TransectFig': 'dict', 'BdyFig': 'obj', 'OutputTs': 'obj', 'PlotTime': 'opt obj',
      'ShoreX': 'vec:n', 'ShoreY': 'mat:n,5', 'ShoreZ': 'mat:n,4', 'OutletEndX': 'vec:2', 'OutletEndWidth': 'num',
      'OutletChanIx': 'ivec:o', 'LagoonWL': 'vec:n', 'OutletWL': 'vec:n', 'SeaLevel': 'num', 'Closed': 'bool', 'RiverWidth': 'num',
      'SpitWidth': 'num', 'WavePower': 'opt num', 'EDir_h': 'num', 'LST': 'opt vec:n-1', 'CST': 'opt vec:n', 'ChanDx': 'vec:c-1',
      'ChanElev': 'vec:c', 'ChanWidth': 'vec:c', 'ChanDep': 'vec:c', 'ChanVel': 'vec:c', 'Bedload': 'opt vec:c-1',
      'TransectX': 'num', 'AreaOfInterest': 'opt obj', 'Origin': 'vec:2', 'ShoreNormDir': 'num', 'BeachSlope': 'num',
      'BackshoreElev': 'num', 'ClosureDepth': 'num', 'BeachTopElev': 'num', 'WaveScaling': 'num', 'CstScaling': 'num',
      'LstScaling': 'num', 'QuiverWidth': 'num', 'TimeIx': 'int', 'NcFile': 'obj', 'PhysicalPars': 'dict'}
_ve = ('args', 'ret', 'assert', 'raise', 'effects')
_vo = {'visualise.' + f: {'returns': 'obj'} for f in (
    'modelView', 'updateModelView', 'longSection', 'updateLongSection', 'newTransectFig', 'updateTransectFig')}


def vis(f, **k):
    return Fun(f, VI, sinks=_ve, opaque={x: y for x, y in dict(_vo, **k.pop('opaque', {})).items() if x != f}, kinds=(
        'call', 'setitem', 'setattr', 'delitem', 'pkgcall'), **k)


claim('P42', *[vis('visualise.' + f) for f in (
    'mapView', 'modelView', 'updateModelView', 'longSection', 'updateLongSection', 'newTransectFig', 'updateTransectFig',
    'bdyCndFig', 'updateBdyCndFig')])
_ao = {'out.readTimestep': _lo['out.readTimestep'], 'riv.assembleChannel': _co['riv.assembleChannel']}
claim('P42', *[vis('animate.' + f, opaque=_ao) for f in ('animateMap', 'animateTransect', 'animateLongSec', 'main')])

claim('P44', Fun('WaveDataFromSwanOutput.script', {}, sinks=('raise', 'assert', 'effects'), model='swan.script', cfg={'frames': 1}))

claim('P10', *[Fun(f + '.script', {}, sinks=('raise', 'effects'), model=g, opaque={'core.main': {'returns': 'obj'}}, kinds=('pkgcall', 'call'),
                   only=lambda q: 'core.main' in q or 'dd_argument' in q or q.startswith(('termination', 'raise')))
               for f, g in (('__main__', 'cli.script'), ('RunHapuaMod', 'cli.run'))])

_tr = ('floor', 'ceil', 'round', 'fix', 'trunc', 'rint', 'around', 'tdpart', 'mod', 'days', 'seconds', 'microseconds', 'nanoseconds')
_m3 = mor('P16', 'P17')
_m3.tells, _m3.tag = frozenset(_tr), ' limits'
claim('P03', mor('P03'), _m3, Fun('synth.harmonicTide', SN, sinks=_eff),
      Fun('synth.shotNoise', SN, sinks=_eff, tells=_tr),
      Fun('core.interpolate_at', {'Df': 'obj', 'New_idxs': 'obj'}, sinks=_eff, tells=_tr),
      Fun('riv.solveFullPreissmann', PR, opaque={'riv.solveSteady': {'returns': ['vec:n+1', 'vec:n+1']}}, tells=_tr),
      Fun('out.writeCurrent', OU, sinks=_eff, tells=_tr), Fun('out.writeTsOut', OU, sinks=_eff, tells=_tr),
      Fun('out.closestTimeIx', OU, sinks=_eff, tells=_tr), Fun('out.readTimestep', OU, sinks=_eff, tells=_tr),
      Fun('loadmod.loadModel', LM, opaque=_lo, sinks=_eff, only=res(1, 2, 3, 22, 25, effects=('synth.',)), tells=_tr),
      Fun('core.main', {'ModelConfigFile': 'obj', 'Overwrite': 'bool'}, opaque=_co, sinks=_eff, kinds=('pkgcall', 'call', 'setitem'), tells=_tr))

# ---------------------------------------------------------------- rules on one abstraction of the code
from . import rules as R
_files = [Fun('loadmod.loadModel', LM, opaque=_lo), Fun('animate.main', VI, opaque=dict(_vo, **_ao))] + [
    Fun('out.' + f, OU) for f in ('newOutFile', 'newTsOutFile', 'writeCurrent', 'writeTsOut', 'readTimestep', 'closestTimeIx')]
claim('P13', Rule('files', R.handles(_files)))
_mo = Fun('mor.updateMorphology', MO, cfg={'adef': 1})
_all = ([Fun('coast.' + f, SY) for f in ('longShoreTransport', 'runup', 'overtopping')] +
        [Fun('riv.' + f, RV) for f in ('solveSteady', 'storeHydraulics', 'storeBedload', 'calcBedload')] +
        [Fun('riv.solveFullPreissmann', PR, opaque={'riv.solveSteady': {'returns': ['vec:n+1', 'vec:n+1']}}),
         Fun('riv.assembleChannel', AC, cfg={'adef': 1})] +
        [Fun('geom.' + f, GM) for f in ('mod2real', 'real2mod', 'intersectPolyline', 'trimLine')] +
        [Fun('out.' + f, OU) for f in ('newOutFile', 'newTsOutFile', 'writeCurrent', 'writeTsOut', 'readTimestep', 'closestTimeIx')] +
        [Fun('synth.' + f, SN) for f in ('shotNoise', 'harmonicTide')] +
        [Fun('core.interpolate_at', {'Df': 'obj', 'New_idxs': 'obj'}), Fun('loadmod.loadModel', LM, opaque=_lo),
         Fun('core.main', {'ModelConfigFile': 'obj', 'Overwrite': 'bool'}, opaque=_co), _mo])
claim('P14', Rule('sources', R.repeatable(_all)), Rule('memory', R.hidden_state))
claim('P01', Rule('settings', R.config_keys('values')), Rule('declared', R.undeclared([Fun('loadmod.loadModel', LM, opaque=_lo)])))
claim('P02', Rule('settings', R.config_keys('checks')))
claim('P38', Rule('masks', R.masks([_mo])))

# development only: the whole step whatever property a difference belongs to
CHECKS['mor'] = [mor()]

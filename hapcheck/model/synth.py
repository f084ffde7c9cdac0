"""Reference model of synth."""
import pandas as pd
import numpy as np
import math
import random
import logging

def shotNoise(StartDate, EndDate, OutputInt, MeanTimeBetweenEvents, MeanEventIncrease, DecayRate1, PropRate1=1.0, DecayRate2=None, RisingLimbTime=pd.Timedelta(minutes=1), CalcTimeInt=None, RandomSeed=None):
    assert DecayRate1 > 0, 'DecayRate must be greater than 0'
    assert 0.0 <= PropRate1 <= 1.0, 'PropRate1 must be in the range 0 to 1'
    if PropRate1 < 1:
        assert not DecayRate2 is None, 'If PropRate1 is less than 1 then DecayRate2 must be specified'
        assert DecayRate2 > 0, 'DecayRate must be greater than 0'
    else:
        DecayRate2 = DecayRate1
    assert RisingLimbTime > pd.Timedelta(days=0), 'Rising limb time must be greater than 0'
    if CalcTimeInt is None:
        CalcTimeInt = OutputInt / 4
    r = random.Random(RandomSeed)
    EventRate = 1 / (MeanTimeBetweenEvents.total_seconds() / 86400)
    PropRate2 = 1 - PropRate1
    Rate1Vals = [MeanEventIncrease * (PropRate1 / DecayRate1) * EventRate]
    Rate2Vals = [MeanEventIncrease * (PropRate2 / DecayRate2) * EventRate]
    MeanVal = Rate1Vals[0] + Rate2Vals[0]
    pass
    pass
    pass
    pass
    EventList = pd.Series([MeanVal], index=pd.DatetimeIndex([StartDate]))
    OutputTs = EventList.copy()
    LastEventTime = StartDate
    while LastEventTime < EndDate:
        GapLength = pd.Timedelta(days=-math.log(r.random()) / EventRate)
        EventSize = -MeanEventIncrease * math.log(1 - r.random())
        if GapLength < RisingLimbTime:
            OutputTs = OutputTs.append(pd.Series(np.interp(pd.DatetimeIndex([LastEventTime + GapLength - RisingLimbTime]).values.astype(float), OutputTs.index[-2:].values.astype(float), OutputTs[-2:]), index=pd.DatetimeIndex([LastEventTime + GapLength - RisingLimbTime])))
            OutputTs.sort_index(inplace=True)
            OutputTs[-1] += np.interp(OutputTs.index[-1:].values.astype(float), pd.DatetimeIndex([LastEventTime + GapLength - RisingLimbTime, LastEventTime + GapLength]).values.astype(float), [0, EventSize])
            TimeList = pd.DatetimeIndex([LastEventTime + GapLength])
        else:
            TimeList = pd.date_range(start=LastEventTime, freq=CalcTimeInt, end=LastEventTime + GapLength - RisingLimbTime, closed='right')
            TimeList = TimeList.append(pd.DatetimeIndex([LastEventTime + GapLength - RisingLimbTime, LastEventTime + GapLength]))
        DaysSinceLastEvent = (TimeList - LastEventTime).total_seconds().values / 86400
        Rate1Vals = Rate1Vals[-1] * np.exp(-DecayRate1 * DaysSinceLastEvent)
        Rate2Vals = Rate2Vals[-1] * np.exp(-DecayRate2 * DaysSinceLastEvent)
        Rate1Vals[-1] += EventSize * PropRate1
        Rate2Vals[-1] += EventSize * PropRate2
        TotVals = Rate1Vals + Rate2Vals
        OutputTs = OutputTs.append(pd.Series(TotVals, index=TimeList))
        LastEventTime += GapLength
    OutputTs = OutputTs.resample(OutputInt).mean().interpolate(method='time')
    OutputTs = OutputTs.loc[:EndDate]
    return OutputTs

def harmonicTide(StartDate, EndDate, OutputInt, MeanSeaLevel, TidalRange):
    TidePeriod = (12 * 60 + 25.2) * 60
    OutputTimes = pd.date_range(start=StartDate, end=EndDate, freq=OutputInt)
    OutputVals = MeanSeaLevel + TidalRange / 2 * np.sin((OutputTimes - StartDate).total_seconds() / TidePeriod * 2 * np.pi)
    OutputTs = pd.Series(OutputVals, index=OutputTimes)
    return OutputTs

"""Reference model of geom."""
import numpy as np

def mod2real(Xmod, Ymod, Origin, ShoreNormalDir):
    Xreal = Origin[0] + Xmod * np.sin(ShoreNormalDir + np.pi / 2) - Ymod * np.cos(ShoreNormalDir + np.pi / 2)
    Yreal = Origin[1] + Xmod * np.cos(ShoreNormalDir + np.pi / 2) + Ymod * np.sin(ShoreNormalDir + np.pi / 2)
    return (Xreal, Yreal)

def real2mod(Xreal, Yreal, Origin, ShoreNormalDir):
    Xrelative = Xreal - Origin[0]
    Yrelative = Yreal - Origin[1]
    Dist = np.sqrt(Xrelative ** 2 + Yrelative ** 2)
    Dir = np.arctan2(Xrelative, Yrelative)
    Xmod = Dist * np.cos(ShoreNormalDir - Dir + np.pi / 2)
    Ymod = Dist * np.sin(ShoreNormalDir - Dir + np.pi / 2)
    return (Xmod, Ymod)

def intersectPolyline(Polyline, Xcoord):
    LeftOfX = Polyline[:, 0] < Xcoord
    IntPoints = np.where(LeftOfX[0:-1] != LeftOfX[1:])[0]
    YIntersects = np.zeros(IntPoints.size)
    for IntNo in range(IntPoints.size):
        YIntersects[IntNo] = Polyline[IntPoints[IntNo], 1] + (Xcoord - Polyline[IntPoints[IntNo], 0]) * (Polyline[IntPoints[IntNo] + 1, 1] - Polyline[IntPoints[IntNo], 1]) / (Polyline[IntPoints[IntNo] + 1, 0] - Polyline[IntPoints[IntNo], 0])
    return YIntersects

def trimLine(LineX, LineY, TrimLineX, StartTrimLineY, EndTrimLineY):
    SearchingForTrimSeg = True
    TrimSeg = np.where(np.logical_and(LineX[0] <= TrimLineX[1:], TrimLineX[:-1] < LineX[0]))[0][0]
    while SearchingForTrimSeg:
        Denominator = (LineX[0] - LineX[1]) * (StartTrimLineY[TrimSeg] - StartTrimLineY[TrimSeg + 1]) - (LineY[0] - LineY[1]) * (TrimLineX[TrimSeg] - TrimLineX[TrimSeg + 1])
        XIntersect = ((LineX[0] * LineY[1] - LineY[0] * LineX[1]) * (TrimLineX[TrimSeg] - TrimLineX[TrimSeg + 1]) - (LineX[0] - LineX[1]) * (TrimLineX[TrimSeg] * StartTrimLineY[TrimSeg + 1] - StartTrimLineY[TrimSeg] * TrimLineX[TrimSeg + 1])) / Denominator
        if TrimLineX[TrimSeg] > XIntersect:
            TrimSeg -= 1
        elif TrimLineX[TrimSeg + 1] < XIntersect:
            TrimSeg += 1
        else:
            SearchingForTrimSeg = False
    YIntersect = ((LineX[0] * LineY[1] - LineY[0] * LineX[1]) * (StartTrimLineY[TrimSeg] - StartTrimLineY[TrimSeg + 1]) - (LineY[0] - LineY[1]) * (TrimLineX[TrimSeg] * StartTrimLineY[TrimSeg + 1] - StartTrimLineY[TrimSeg] * TrimLineX[TrimSeg + 1])) / Denominator
    LineX[0] = XIntersect
    LineY[0] = YIntersect
    SearchingForTrimSeg = True
    TrimSeg = np.where(np.logical_and(LineX[-1] <= TrimLineX[1:], TrimLineX[:-1] < LineX[-1]))[0][0]
    while SearchingForTrimSeg:
        Denominator = (LineX[-2] - LineX[-1]) * (EndTrimLineY[TrimSeg] - EndTrimLineY[TrimSeg + 1]) - (LineY[-2] - LineY[-1]) * (TrimLineX[TrimSeg] - TrimLineX[TrimSeg + 1])
        XIntersect = ((LineX[-2] * LineY[-1] - LineY[-2] * LineX[-1]) * (TrimLineX[TrimSeg] - TrimLineX[TrimSeg + 1]) - (LineX[-2] - LineX[-1]) * (TrimLineX[TrimSeg] * EndTrimLineY[TrimSeg + 1] - EndTrimLineY[TrimSeg] * TrimLineX[TrimSeg + 1])) / Denominator
        if TrimLineX[TrimSeg] > XIntersect:
            TrimSeg -= 1
        elif TrimLineX[TrimSeg + 1] < XIntersect:
            TrimSeg += 1
        else:
            SearchingForTrimSeg = False
    YIntersect = ((LineX[-2] * LineY[-1] - LineY[-2] * LineX[-1]) * (EndTrimLineY[TrimSeg] - EndTrimLineY[TrimSeg + 1]) - (LineY[-2] - LineY[-1]) * (TrimLineX[TrimSeg] * EndTrimLineY[TrimSeg + 1] - EndTrimLineY[TrimSeg] * TrimLineX[TrimSeg + 1])) / Denominator
    LineX[-1] = XIntersect
    LineY[-1] = YIntersect

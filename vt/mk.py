"""Builders that turn JSON cases into welleng objects."""
import numpy as np

from .boot import we


def make_header(h=None, **kw):
    d = dict(name="t", b_total=50000.0, dip=70.0, declination=0.0,
             azi_reference="grid")
    d.update(h or {})
    d.update(kw)
    return we.survey.SurveyHeader(**d)


def make_survey(st, h=None, error_model=None, **kw):
    hd = h if isinstance(h, we.survey.SurveyHeader) else make_header(h)
    return we.survey.Survey(
        md=st["md"], inc=st["inc"], azi=st["azi"], header=hd,
        unit=hd.depth_unit, error_model=error_model, **kw)


def nev(s):
    return np.column_stack([s.n, s.e, s.tvd]).astype(float)


def grid_azi(h, azi):
    """Grid azimuth in degrees of an azimuth given in the header's reference,
    by definition: true = grid + convergence, magnetic = true - declination."""
    azi = np.asarray(azi, float)
    if h["azi_reference"] == "grid":
        return azi
    if h["azi_reference"] == "true":
        return azi - h["convergence"]
    return azi + h["declination"] - h["convergence"]

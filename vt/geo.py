"""Independent reference geometry (degrees in, plain numpy).

Nothing here calls welleng.  Conventions are the industry ones: N, E, V(down);
inclination from vertical, azimuth clockwise from north.
"""
import math

import numpy as np


def tangent(inc_deg, azi_deg):
    i, a = math.radians(inc_deg), math.radians(azi_deg)
    return np.array([math.sin(i) * math.cos(a), math.sin(i) * math.sin(a),
                     math.cos(i)])


def tangent_rad(i, a):
    return np.array([math.sin(i) * math.cos(a), math.sin(i) * math.sin(a),
                     math.cos(i)])


def angle_between(u, v):
    """Robust angle between unit vectors."""
    u, v = np.asarray(u, float), np.asarray(v, float)
    return 2 * math.atan2(np.linalg.norm(u - v), np.linalg.norm(u + v))


def arc(u, v, length, s):
    """Displacement and tangent a distance s along the circular arc of the
    given length that starts with tangent u and ends with tangent v."""
    if length == 0:
        return np.zeros(3), np.asarray(u, float)
    th = angle_between(u, v)
    if th < 1e-9:
        # straight to within rounding; keep the first-order bend
        t = u + (v - u) * (s / length if length else 0.0)
        return u * s + (v - u) * (s * s / (2 * length) if length else 0.0), \
            t / np.linalg.norm(t)
    w = v - np.dot(u, v) * u
    w /= np.linalg.norm(w)
    f = th * s / length
    r = length / th
    return r * (math.sin(f) * u + 2 * math.sin(f / 2) ** 2 * w), \
        math.cos(f) * u + math.sin(f) * w


class Path:
    """Piecewise circular-arc reference trajectory through survey stations."""

    def __init__(self, md, inc, azi, start=(0.0, 0.0, 0.0), deg=True):
        k = 1.0 if deg else 180 / math.pi
        self.md = np.asarray(md, float)
        self.t = np.array([tangent(i * k, a * k) for i, a in zip(inc, azi)])
        self.pos = np.zeros((len(self.md), 3))
        self.pos[0] = start
        self.dl = np.zeros(len(self.md))
        for j in range(1, len(self.md)):
            L = self.md[j] - self.md[j - 1]
            d, _ = arc(self.t[j - 1], self.t[j], L, L)
            self.pos[j] = self.pos[j - 1] + d
            self.dl[j] = angle_between(self.t[j - 1], self.t[j])

    def bracket(self, md):
        j = int(np.searchsorted(self.md, md, side="right") - 1)
        return max(0, min(j, len(self.md) - 2))

    def at(self, md):
        j = self.bracket(md)
        L = self.md[j + 1] - self.md[j]
        d, t = arc(self.t[j], self.t[j + 1], L, md - self.md[j])
        return self.pos[j] + d, t

    def sample(self, n):
        """n points per interval: (md, pos, tangent)."""
        out = []
        for j in range(len(self.md) - 1):
            L = self.md[j + 1] - self.md[j]
            for k in range(n):
                s = L * k / n
                d, t = arc(self.t[j], self.t[j + 1], L, s)
                out.append((self.md[j] + s, self.pos[j] + d, t))
        out.append((self.md[-1], self.pos[-1], self.t[-1]))
        return out


def rot(axis, ang):
    """Right-handed rotation matrix about a unit axis."""
    x, y, z = np.asarray(axis, float) / np.linalg.norm(axis)
    c, s = math.cos(ang), math.sin(ang)
    C = 1 - c
    return np.array([
        [c + x * x * C, x * y * C - z * s, x * z * C + y * s],
        [y * x * C + z * s, c + y * y * C, y * z * C - x * s],
        [z * x * C - y * s, z * y * C + x * s, c + z * z * C],
    ])


def hla_axes(inc, azi):
    """Rows: highside, lateral (right), along-hole unit vectors in NEV.

    Highside is the direction of increasing inclination in the vertical plane
    of the hole (pointing up for an inclined hole, north for a vertical hole at
    azimuth 0); lateral is horizontal, 90 degrees clockwise of the azimuth.
    """
    si, ci, sa, ca = math.sin(inc), math.cos(inc), math.sin(azi), math.cos(azi)
    return np.array([
        [ci * ca, ci * sa, -si],
        [-sa, ca, 0.0],
        [si * ca, si * sa, ci],
    ])

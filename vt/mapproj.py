"""Spherical map projections from the textbook formulas (Snyder), unit sphere * R."""
import numpy as np

R = 6371200.0
D = np.pi / 180


def _wrap(l):
    return (l + np.pi) % (2 * np.pi) - np.pi


class Azimuthal:
    def __init__(self, kind, lat0, lon0):
        self.kind, self.p0, self.l0 = kind, lat0 * D, lon0 * D

    def fwd(self, lat, lon):
        p, l = np.asarray(lat, float) * D, np.asarray(lon, float) * D - self.l0
        cosc = np.sin(self.p0) * np.sin(p) + np.cos(self.p0) * np.cos(p) * np.cos(l)
        k = self.kind
        if k == 'stere':
            f = 2 / (1 + cosc)
        elif k == 'ortho':
            f = 1.0
        elif k == 'gnom':
            f = 1 / cosc
        elif k == 'laea':
            f = np.sqrt(2 / (1 + cosc))
        else:
            c = np.arccos(np.clip(cosc, -1, 1))
            f = np.where(c < 1e-9, 1.0, c / np.where(c < 1e-9, 1, np.sin(c)))
        x = R * f * np.cos(p) * np.sin(l)
        y = R * f * (np.cos(self.p0) * np.sin(p) - np.sin(self.p0) * np.cos(p) * np.cos(l))
        return x, y

    def inv(self, x, y):
        x, y = np.asarray(x, float) / R, np.asarray(y, float) / R
        rho = np.hypot(x, y)
        k = self.kind
        if k == 'stere':
            c = 2 * np.arctan(rho / 2)
        elif k == 'ortho':
            c = np.arcsin(np.clip(rho, -1, 1))
        elif k == 'gnom':
            c = np.arctan(rho)
        elif k == 'laea':
            c = 2 * np.arcsin(np.clip(rho / 2, -1, 1))
        else:
            c = rho
        sr = np.where(rho < 1e-12, 1, rho)
        p = np.arcsin(np.clip(np.cos(c) * np.sin(self.p0) + y * np.sin(c) * np.cos(self.p0) / sr,
                              -1, 1))
        p = np.where(rho < 1e-12, self.p0, p)
        l = np.arctan2(x * np.sin(c), sr * np.cos(self.p0) * np.cos(c)
                       - y * np.sin(self.p0) * np.sin(c))
        l = np.where(rho < 1e-12, 0.0, l)
        return p / D, _wrap(l + self.l0) / D


class Cyl:
    """kind 'merc' or 'eqc'; longitudes are unwrapped relative to `west`."""

    def __init__(self, kind, lon0):
        self.kind, self.lon0 = kind, lon0

    def fwd(self, lat, lon):
        x = R * (np.asarray(lon, float) - self.lon0) * D
        p = np.asarray(lat, float) * D
        y = R * (np.log(np.tan(np.pi / 4 + p / 2)) if self.kind == 'merc' else p)
        return x, y

    def inv(self, x, y):
        lon = np.asarray(x, float) / R / D + self.lon0
        y = np.asarray(y, float) / R
        p = 2 * np.arctan(np.exp(y)) - np.pi / 2 if self.kind == 'merc' else y
        return p / D, _wrap(lon * D) / D


class Lcc:
    def __init__(self, lat1, lat2, lon0):
        p1, p2 = lat1 * D, lat2 * D
        t = lambda p: np.tan(np.pi / 4 + p / 2)
        if abs(p1 - p2) < 1e-10:
            self.n = np.sin(p1)
        else:
            self.n = np.log(np.cos(p1) / np.cos(p2)) / np.log(t(p2) / t(p1))
        self.F = np.cos(p1) * t(p1) ** self.n / self.n
        self.l0 = lon0 * D

    def fwd(self, lat, lon):
        p = np.asarray(lat, float) * D
        rho = R * self.F / np.tan(np.pi / 4 + p / 2) ** self.n
        th = self.n * _wrap(np.asarray(lon, float) * D - self.l0)
        return rho * np.sin(th), -rho * np.cos(th)

    def inv(self, x, y):
        s = np.sign(self.n)
        rho = s * np.hypot(x, y)
        th = np.arctan2(s * np.asarray(x, float), -s * np.asarray(y, float))
        p = 2 * np.arctan((R * self.F / rho) ** (1 / self.n)) - np.pi / 2
        return p / D, _wrap(th / self.n + self.l0) / D


def dist(lat1, lon1, lat2, lon2):
    """Great-circle distance in metres."""
    a, b, c, d = (np.asarray(v, float) * D for v in (lat1, lon1, lat2, lon2))
    h = np.sin((c - a) / 2) ** 2 + np.cos(a) * np.cos(c) * np.sin((d - b) / 2) ** 2
    return 2 * R * np.arcsin(np.sqrt(np.clip(h, 0, 1)))

"""Building and describing detectors for C08 and C09."""
import numpy as np

from harness.core import q

ALIASES = {"bruker": ["bruker", "Bruker"], "tsl": ["tsl", "edax", "amatek", "EDAX", "TSL"],
           "oxford": ["oxford", "aztec", "Oxford"], "emsoft": ["emsoft", "emsoft5", "EMsoft5"],
           "emsoft4": ["emsoft4", "EMsoft4"]}
GETTERS = {"bruker": lambda d: d.pc_bruker(), "tsl": lambda d: d.pc_tsl(),
           "oxford": lambda d: d.pc_oxford(), "emsoft": lambda d: d.pc_emsoft(),
           "emsoft4": lambda d: d.pc_emsoft(4)}


def attrs(d):
    """Everything except the projection centers. Binning is stored with fractions."""
    w = d.width / (d.ncols * d.px_size)
    return dict(b=q(w, 10), d=q(d.px_size, 10),
                ang=q(np.array([d.sample_tilt, d.tilt, d.azimuthal, d.twist]), 100))


def snapshot(d):
    return (d.shape, d.px_size, d.binning, d.width, d.sample_tilt, d.tilt, d.azimuthal, d.twist,
            d.navigation_shape, d.pc.tobytes())


def observe(d, scale=100000):
    return dict(shape=list(d.shape), nav=list(d.navigation_shape),
                pc=q(d.pc_flattened, scale), **attrs(d))


def same_attrs(d):
    return dict(shape=d.shape, px_size=d.px_size, binning=d.width / (d.ncols * d.px_size),
                tilt=d.tilt, azimuthal=d.azimuthal, twist=d.twist, sample_tilt=d.sample_tilt)

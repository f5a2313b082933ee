"""Synthetic UVData objects (no data files needed) for run-time contract cases."""
import functools, warnings
import numpy as np
from astropy.utils import iers
iers.conf.auto_download = False

@functools.lru_cache(None)
def telescope(ants):
    from pyuvdata import Telescope
    from astropy.coordinates import EarthLocation
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return Telescope.new(name="HERA", location=EarthLocation.from_geodetic(21.428, -30.72, 1051.7), instrument="HERA", x_orientation="east",
                             feeds=["x", "y"], mount_type="fixed", antenna_positions={a: np.array([x, y, 0.0]) for a, x, y in ants}, antenna_diameters=np.full(len(ants), 14.0), update_from_known=False)
HEX = ((0, 0., 0.), (1, 14.6, 0.), (2, 29.2, 0.), (11, 7.3, 12.643), (12, 21.9, 12.643))
def make(rng, bls=((0, 1), (1, 2)), Nt=3, Nf=8, pols=(-5,), ants=HEX, fmin=120e6, df=100e3, tint=10.7, jd=2458116.3, flags=0.0, nsample=True, pol_convention=None, complexamp=1.0):
    """random complex visibilities; times in the middle of the integration; conj/ordering as given"""
    from pyuvdata import UVData
    g = rng.np()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        uvd = UVData.new(freq_array=fmin + df * np.arange(Nf), polarization_array=list(pols), antpairs=list(bls), telescope=telescope(tuple(ants)),
                         times=jd + tint / 86400. * np.arange(Nt), integration_time=tint, do_blt_outer=True, empty=True, vis_units="Jy")
    sh = uvd.data_array.shape
    uvd.data_array[:] = complexamp * (g.normal(size=sh) + 1j * g.normal(size=sh))
    uvd.flag_array[:] = g.random(sh) < flags
    uvd.nsample_array[:] = np.round(g.random(sh) * 4 + 1, 2) if nsample else 1.0
    uvd.pol_convention = pol_convention
    return uvd

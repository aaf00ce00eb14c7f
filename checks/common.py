"""Shared pieces of the scenarios: images whose pixels, backgrounds and PSFs
are inputs of the check."""

from fractions import Fraction

import numpy as np

HALF = Fraction(1, 2)


def frac(w, rows):
    """Nested list of rationals -> constant array of the world."""
    return w.const([[Fraction(x) for x in r] for r in rows])


def catalog(w, tag, xs, ys, flux, npix=None, flag=None):
    n = len(xs)
    return w.catalog({
        "x": w.np.array(list(xs)), "y": w.np.array(list(ys)),
        "flux": w.np.array(list(flux)),
        "npix": w.np.array(list(npix) if npix is not None else [9] * n),
        "flag": w.np.array(list(flag) if flag is not None else [0] * n),
    })


def image_class(w, base="SingleImage"):
    """A SingleImage whose measured quantities (sources, interpolated image,
    PSF decomposition) are prescribed through its public interface."""
    m = w.mod("single_image")
    B = getattr(m, base)

    class Img(B):
        spec = None

        def __init__(self, *a, **k):
            # not through the module's own name, which may be this class
            if base == "SingleImage":
                B.__init__(self, *a, **k)
            else:
                super(B, self).__init__(*a, **k)

        def _get(self, k):
            return (self.spec or {}).get(k)

        @property
        def best_sources(self):
            v = self.__dict__.get("v_sources")
            if v is None:
                v = type(self).spec and type(self).spec.get("sources")
            return v

        def update_sources(self, new_sources=None):
            if new_sources is not None:
                self.__dict__["v_sources"] = new_sources
            w.event("update_sources", img=self, new=new_sources)

        @property
        def interped(self):
            v = type(self).spec.get("interped")
            if v is None:
                return super().interped
            if not callable(v):
                return v
            if "_given_interped" not in self.__dict__:
                self.__dict__["_given_interped"] = v(self)
            return self.__dict__["_given_interped"]

        def get_variable_psf(self, inf_loss=None, shape=None):
            w.event("get_psf", img=self, inf_loss=inf_loss)
            s = type(self).spec
            if s.get("psf") is None:
                return super().get_variable_psf(inf_loss, shape)
            return [self.kl_afields, self.kl_basis]

        def _setup_kl_a_fields(self, inf_loss=None, updating=False):
            s = type(self).spec
            w.event("get_psf", img=self, inf_loss=inf_loss)
            if s.get("psf") is None:
                return super()._setup_kl_a_fields(inf_loss, updating)

        def _setup_kl_basis(self, inf_loss=None):
            s = type(self).spec
            if s.get("psf") is None:
                return super()._setup_kl_basis(inf_loss)

        @property
        def kl_basis(self):
            s = type(self).spec
            if s.get("psf") is None:
                return super().kl_basis
            return s["psf"]

        @property
        def kl_afields(self):
            s = type(self).spec
            if s.get("psf") is None:
                return super().kl_afields
            return s.get("afields", [None])

        @property
        def normal_image(self):
            s = type(self).spec
            if s.get("normal") is None:
                return super().normal_image
            return s["normal"]
    Img.__name__ = base
    return Img


def make_image(w, spec, data, base="SingleImage", mask=None, **kw):
    C = image_class(w, base)
    C.spec = spec
    kw.setdefault("stamp_shape", (3, 3))
    im = C(data, mask=mask, **kw)
    return im


# ------------------------------------------------------------------ Fourier
def cplx(w, a):
    return a.astype(complex) if not w.sym else a.astype("c16")


def fft2(w, a, s=None):
    return w.np.fft.fft2(a, s=s, norm="ortho")


def ifft2(w, a):
    return w.np.fft.ifft2(a, norm="ortho")


def shift_phase(w, shape, dy, dx):
    """exp(-2 pi i (ky dy / ny + kx dx / nx)) as an array."""
    one = w.np.ones(shape) + 0 * 1j
    if w.sym:
        from symx import arr
        return arr.fourier_shift(one, (dy, dx))
    from scipy.ndimage import fourier_shift
    return fourier_shift(np.ones(shape, complex), (dy, dx))


def com(w, a):
    """Centre of mass, written out."""
    if w.sym:
        from symx import arr
        return arr.center_of_mass(a)
    sh = tuple(a.shape)
    t = a.sum()
    yy, xx = np.mgrid[: sh[0], : sh[1]]
    yy, xx = w.const(yy), w.const(xx)
    return (a * yy).sum() / t, (a * xx).sum() / t


# ------------------------------------------------------------------- input
def fits(w):
    return w.load().imp("astropy.io.fits", fromlist=("PrimaryHDU",))


def path(w, name):
    import os
    return os.path.join(w.tmp(), name)


def source(w, kind, data, gain=None, ext=None, extend=True, tag=""):
    """The image as an ndarray, HDU, HDU list or FITS file."""
    if kind == "ndarray":
        return data
    if kind == "masked":
        return w.masked(data, w.const(np.zeros(tuple(data.shape), bool)))
    f = fits(w)
    h = f.PrimaryHDU(data)
    if gain is not None:
        h.header["GAIN"] = gain
    if extend is False:
        h.header["EXTEND"] = False
    elif extend is None:
        del h.header["EXTEND"]
    if kind == "hdu":
        return h
    hs = [h]
    if ext is not None:
        hs.append(f.ImageHDU(ext))
    hl = f.HDUList(hs)
    if extend is False:
        hl[0].header["EXTEND"] = False
    elif extend is None and "EXTEND" in hl[0].header:
        del hl[0].header["EXTEND"]
    if kind == "hdulist":
        return hl
    p = path(w, f"img{tag}.fits")
    hl.writeto(p, overwrite=True)
    return p


KINDS = ("ndarray", "masked", "hdu", "hdulist", "file")

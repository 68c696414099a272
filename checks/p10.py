"""P10: density grids belong to their axes, enclose what they claim and treat both ends alike.

 grid         axes, normalisation, integrals and interpolation of density grids
 levels       contour levels
 binning      ranges and bins of a parameter
 edges        prior boundaries of a density
 estimate     the kernel estimates made from them
 convolution  parts of a convolution
"""
from .refspec import *

LEVELS = '''
class R:
    def getContourLevels(inbins, contours=None, missing_norm=0, half_edge=True):
        levels = np.zeros(len(contours))
        if half_edge:
            abins = inbins.copy()
            last = [-1] + [slice(None, None, None) for _ in abins.shape[1:]]
            first = [0] + [slice(None, None, None) for _ in abins.shape[1:]]
            for _ in abins.shape:
                abins[tuple(last)] /= 2
                abins[tuple(first)] /= 2
                last = np.roll(last, 1)
                first = np.roll(first, 1)
        else:
            abins = inbins
        targets = (1 - np.array(contours)) * np.sum(abins) - missing_norm
        order = inbins.reshape(-1).argsort()
        density = inbins.reshape(-1)[order]
        cumsum = np.cumsum(abins.reshape(-1)[order])
        for i, ix in enumerate(np.searchsorted(cumsum, targets)):
            if ix == 0:
                raise DensitiesError('')
            d = (cumsum[ix] - targets[i]) / (cumsum[ix] - cumsum[ix - 1])
            levels[i] = density[ix] * (1 - d) + d * density[ix - 1]
        return levels
'''
GRID = '''
class R:
    def normalize(self, by='integral', in_place=False):
        if by == 'integral':
            norm = self.norm_integral()
        elif by == 'max':
            norm = np.max(self.P)
            if norm == 0:
                raise DensitiesError('')
        else:
            raise DensitiesError('')
        if in_place:
            self.P /= norm
        else:
            self.setP(self.P / norm)
        self.spl = None
        return self

    def setP(self, P=None):
        if P is not None:
            for size, ax in zip(P.shape, self.axes):
                if size != ax.size:
                    raise DensitiesError('')
            self.P = P
        else:
            self.P = np.zeros([ax.size for ax in self.axes])
        self.spl = None

    def getContourLevels(self, contours=None):
        return getContourLevels(self.P, contours)
'''
D1 = '''
class R:
    def __init__(self, x, P=None, view_ranges=None):
        self.n = x.size
        self.axes = [x]
        self.x = x
        self.view_ranges = view_ranges
        self.spacing = x[1] - x[0]
        self.setP(P)

    def bounds(self):
        if self.view_ranges is not None:
            return self.view_ranges
        return self.x[0], self.x[-1]

    def _initSpline(self):
        self.spl = splrep(self.x, self.P, s=0)

    def Prob(self, x, derivative=0):
        if self.spl is None:
            self._initSpline()
        if isinstance(x, (np.ndarray, list, tuple)):
            return splev(x, self.spl, derivative, ext=1)
        return splev([x], self.spl, derivative, ext=1)

    def integrate(self, P):
        return (P[0] / 2 + P[-1] / 2 + np.sum(P[1:-1])) * self.spacing

    def norm_integral(self):
        return self.integrate(self.P)
'''
D2 = '''
class R:
    def __init__(self, x, y, P=None, view_ranges=None):
        self.x = x
        self.y = y
        self.axes = [y, x]
        self.view_ranges = view_ranges
        self.spacing = (x[1] - x[0]) * (y[1] - y[0])
        self.setP(P)

    def integrate(self, P):
        inside = np.sum(P[1:-1, 1:-1])
        edges = np.sum(P[1:-1, 0]) + np.sum(P[1:-1, -1]) + np.sum(P[0, 1:-1]) + np.sum(P[-1, 1:-1])
        corners = P[0, 0] + P[0, -1] + P[-1, 0] + P[-1, -1]
        return (inside + edges / 2 + corners / 4) * self.spacing

    def norm_integral(self):
        return self.integrate(self.P)

    def _initSpline(self):
        self.spl = RectBivariateSpline(self.x, self.y, self.P.T, s=0)

    def Prob(self, x, y, grid=False):
        return self.__call__(x, y, grid=grid)
'''
MC = '''
class R:
    def _initParam(self, par, paramVec, mean=None, sddev=None, paramConfid=None):
        par.mean = paramVec.mean() if mean is None else mean
        par.err = paramVec.std() if sddev is None else sddev
        par.param_min = np.min(paramVec)
        par.param_max = np.max(paramVec)
        data = paramConfid or self.initParamConfidenceData(paramVec)
        confids = self.confidence(data, np.array([self.range_confidence, 1 - self.range_confidence] + list(np.linspace(0.1, 0.9, 9))))
        lo, hi = confids[0], confids[1]
        confids[1:-1] = confids[2:]
        confids[0] = par.param_min
        confids[-1] = par.param_max
        diffs = confids[4:] - confids[:-4]
        scale = np.min(diffs) / 1.049
        par.sigma_range = scale if np.all(diffs > par.err * 1.049) and np.all(diffs < scale * 1.5) else min(par.err, scale)
        smooth = par.sigma_range * 0.4
        if self.range_ND_contour >= 0 and self.likeStats:
            if self.range_ND_contour >= par.ND_limit_bot.size:
                raise SettingError('')
            lo = min(max(lo - par.err, par.ND_limit_bot[self.range_ND_contour]), lo)
            hi = max(min(hi + par.err, par.ND_limit_top[self.range_ND_contour]), hi)
        bot = par.has_limits_bot
        if bot:
            if lo - par.limmin > 2 * smooth and par.param_min - par.limmin > smooth:
                bot = False
                par.has_limits_bot = False
            else:
                lo = par.limmin
        top = par.has_limits_top
        if top:
            if par.limmax - hi > 2 * smooth and par.limmax - par.param_max > smooth:
                top = False
                par.has_limits_top = False
            else:
                hi = par.limmax
        par.range_min = lo if bot else lo - smooth * 2
        par.range_max = hi if top else hi + smooth * 2
        par.has_limits = par.has_limits_top or par.has_limits_bot
        return par

    def _initParamRanges(self, j, paramConfid=None):
        if isinstance(j, str):
            j = self.index[j]
        return self._initParam(self.paramNames.names[j], self.samples[:, j], self.means[j], self.sddev[j], paramConfid)

    def _binSamples(self, paramVec, par, num_fine_bins, borderfrac=0.1):
        border = (par.range_max - par.range_min) * borderfrac
        lo = min(par.param_min, par.range_min)
        if not par.has_limits_bot:
            lo -= border
        hi = max(par.param_max, par.range_max)
        if not par.has_limits_top:
            hi += border
        width = (hi - lo) / (num_fine_bins - 1)
        return ((paramVec - lo) / width + 0.5).astype(int), width, lo, hi

    def _setEdgeMask2D(self, parx, pary, prior_mask, winw, alledge=False):
        if parx.has_limits_bot:
            prior_mask[:, winw] /= 2
            prior_mask[:, :winw] = 0
        if parx.has_limits_top:
            prior_mask[:, -(winw + 1)] /= 2
            prior_mask[:, -winw:] = 0
        if pary.has_limits_bot:
            prior_mask[winw, :] /= 2
            prior_mask[:winw] = 0
        if pary.has_limits_top:
            prior_mask[-(winw + 1), :] /= 2
            prior_mask[-winw:, :] = 0
        if alledge:
            prior_mask[:, :winw] = 0
            prior_mask[:, -winw:] = 0
            prior_mask[:winw] = 0
            prior_mask[-winw:, :] = 0

    def _getScaleForParam(self, par):
        mn, mx, bot, top = self.get1DDensity(par).getLimits(0.5, accuracy_factor=1)
        return (mx - mn) / 0.675 if bot or top else (mx - mn) / (2 * 0.675)

    def _make2Dhist(self, ixs, iys, xsize, ysize):
        cell = ixs + iys * xsize
        return np.bincount(cell, weights=self.weights, minlength=xsize * ysize).reshape((ysize, xsize)), cell

    def get2DDensity(self, x, y, normalized=False, **kwargs):
        if self.needs_update:
            self.updateBaseStatistics()
        density = self.get2DDensityGridData(x, y, get_density=True, **kwargs)
        if normalized:
            density.normalize(in_place=True)
        return density
'''
KERNEL = '''
class R:
    def __init__(self, winw, h):
        self.winw = winw
        self.h = h
        self.x = np.arange(-winw, winw + 1)
        w = np.exp(-(self.x / h) ** 2 / 2)
        self.Win = w / np.sum(w)
'''
ONE = '''
class R:
    def get1DDensityGridData(self, j, paramConfid=None, meanlikes=False, **kwargs):
        if self.needs_update:
            self.updateBaseStatistics()
        j = self._parAndNumber(j)[0]
        if j is None:
            return None
        par = self._initParamRanges(j, paramConfid)
        num_bins = kwargs.get('num_bins', self.num_bins)
        scale = kwargs.get('smooth_scale_1D', self.smooth_scale_1D)
        boundary = kwargs.get('boundary_correction_order', self.boundary_correction_order)
        mult = kwargs.get('mult_bias_correction_order', self.mult_bias_correction_order)
        n = kwargs.get('fine_bins', self.fine_bins)
        extent = par.range_max - par.range_min
        if extent <= 0:
            raise MCSamplesError('')
        ix, width, lo, hi = self._binSamples(self.samples[:, j], par, n)
        bins = np.bincount(ix, weights=self.weights, minlength=n)
        if meanlikes:
            if self.shade_likes_is_mean_loglikes:
                w = self.weights * self.loglikes
            else:
                w = self.weights * np.exp(self.mean_loglike - self.loglikes)
            likes = np.bincount(ix, weights=w, minlength=n)
        if scale <= 0:
            h = min(self.getAutoBandwidth1D(bins, par, j, mult, boundary) * (hi - lo), extent / 4) * abs(scale) / width
        elif scale < 1:
            h = scale * par.err / width
        else:
            h = scale * (extent / (num_bins - 1)) / width
        h = min(max(1., h), n // 2)
        winw = min(int(round(2.5 * h)), n // 2 - 2)
        kernel = Kernel1D(winw, h)
        cache = {}
        conv = convolve1D(bins, kernel.Win, 'same', cache=cache)
        d = Density1D(np.linspace(lo, hi, n), P=conv, view_ranges=[par.range_min, par.range_max])
        if meanlikes:
            raw = conv.copy()
        if par.has_limits and boundary >= 0:
            mask = np.ones(n + 2 * winw)
            if par.has_limits_bot:
                mask[winw] = 0.5
                mask[:winw] = 0
            if par.has_limits_top:
                mask[-(winw + 1)] = 0.5
                mask[-winw:] = 0
            a0 = convolve1D(mask, kernel.Win, 'valid', cache=cache)
            ix = np.nonzero(a0 * d.P)
            a0 = a0[ix]
            normed = d.P[ix] / a0
            if boundary == 0:
                d.P[ix] = normed
            elif boundary <= 2:
                xWin = kernel.Win * kernel.x
                a1 = convolve1D(mask, xWin, 'valid', cache=cache)[ix]
                a2 = convolve1D(mask, xWin * kernel.x, 'valid', cache=cache, cache_args=[1])[ix]
                xP = convolve1D(bins, xWin, 'same', cache=cache)[ix]
                if boundary == 1:
                    corrected = (d.P[ix] * a2 - xP * a1) / (a0 * a2 - a1 ** 2)
                else:
                    a3 = convolve1D(mask, xWin * kernel.x ** 2, 'valid', cache=cache, cache_args=[1])[ix]
                    a4 = convolve1D(mask, xWin * kernel.x ** 3, 'valid', cache=cache, cache_args=[1])[ix]
                    x2P = convolve1D(bins, xWin * kernel.x, 'same', cache=cache, cache_args=[1])[ix]
                    A, B, C = a4 * a2 - a3 ** 2, a2 * a3 - a4 * a1, a3 * a1 - a2 ** 2
                    corrected = (d.P[ix] * A + xP * B + x2P * C) / (a0 * A + a1 * B + a2 * C)
                d.P[ix] = normed * np.exp(np.minimum(corrected / normed, 4) - 1)
            else:
                raise SettingError('')
        elif boundary == 2:
            w2 = kernel.Win * kernel.x ** 2
            x2P = convolve1D(bins, w2, 'same', cache=cache)
            a2 = np.sum(w2)
            a4 = np.dot(w2, kernel.x ** 2)
            corrected = (d.P * a4 - a2 * x2P) / (a4 - a2 ** 2)
            ix = d.P > 0
            d.P[ix] *= np.exp(np.minimum(corrected[ix] / d.P[ix], 2) - 1)
        if mult:
            mask = np.ones(n)
            if par.has_limits_bot:
                mask[0] *= 0.5
            if par.has_limits_top:
                mask[-1] *= 0.5
            a0 = convolve1D(mask, kernel.Win, 'same', cache=cache, cache_args=[2])
            for _ in range(mult):
                flat = d.P.copy()
                flat[flat == 0] = 1
                conv = convolve1D(bins / flat, kernel.Win, 'same', cache=cache, cache_args=[2])
                d.setP(d.P * conv)
                d.P /= a0
        d.normalize('max', in_place=True)
        if not kwargs:
            self.density1D[par.name] = d
        if meanlikes:
            ix = d.P > 0
            likes[ix] /= d.P[ix]
            binlikes = convolve1D(likes, kernel.Win, 'same', cache=cache, cache_args=[2])
            binlikes[ix] *= d.P[ix] / raw[ix]
            if self.shade_likes_is_mean_loglikes:
                best = np.min(binlikes)
                binlikes = np.where((binlikes - best) < 30, np.exp(-(binlikes - best)), 0)
                binlikes[raw == 0] = 0
            binlikes /= np.max(binlikes)
            d.likes = binlikes
        else:
            d.likes = None
        return d
'''
TWO = '''
class R:
    def get2DDensityGridData(self, j, j2, num_plot_contours=None, get_density=False, meanlikes=False, **kwargs):
        if self.needs_update:
            self.updateBaseStatistics()
        j, parx = self._parAndNumber(j)
        j2, pary = self._parAndNumber(j2)
        if j is None or j2 is None:
            return None
        self._initParamRanges(j)
        self._initParamRanges(j2)
        base = kwargs.get('fine_bins_2D', self.fine_bins_2D)
        boundary = kwargs.get('boundary_correction_order', self.boundary_correction_order)
        mult = kwargs.get('mult_bias_correction_order', self.mult_bias_correction_order)
        scale = float(kwargs.get('smooth_scale_2D', self.smooth_scale_2D))
        corr = self.getCorrelationMatrix()[j2][j]
        if abs(self.max_corr_2D) > 1:
            raise SettingError('')
        if abs(corr) < 0.1:
            corr = 0.
        angle_scale = max(0.2, np.sqrt(1 - min(self.max_corr_2D, abs(corr)) ** 2))
        nbin2D = int(round(self.num_bins_2D / angle_scale))
        n = base
        if corr:
            scaled = 192 * int(3 / angle_scale) // 3
            if base < scaled and int(1 / angle_scale) > 1:
                n = scaled
        ixs, xwidth, xlo, xhi = self._binSamples(self.samples[:, j], parx, n)
        iys, ywidth, ylo, yhi = self._binSamples(self.samples[:, j2], pary, n)
        hist, flat = self._make2Dhist(ixs, iys, n, n)
        if meanlikes:
            fine = np.bincount(flat, weights=self.weights * np.exp(self.mean_loglike - self.loglikes), minlength=n * n).reshape((n, n))
        if scale < 0:
            rx, ry, corr = self.getAutoBandwidth2D(hist, parx, pary, j, j2, corr, xhi - xlo, yhi - ylo, base, mult_bias_correction_order=mult)
            rx = rx * abs(scale) / xwidth
            ry = ry * abs(scale) / ywidth
        elif scale < 1:
            rx = scale * parx.err / xwidth
            ry = scale * pary.err / ywidth
        else:
            rx = scale * n / nbin2D
            ry = scale * n / nbin2D
        winw = int(round(2.5 * float(max(rx, ry))))
        # rows are y, columns are x
        Cinv = np.linalg.inv(np.array([[ry ** 2, rx * ry * corr], [rx * ry * corr, rx ** 2]]))
        iy, ix = np.mgrid[-winw:winw + 1, -winw:winw + 1]
        Win = np.exp(-(iy ** 2 * Cinv[0, 0] + ix ** 2 * Cinv[1, 1] + 2 * Cinv[1, 0] * iy * ix) / 2)
        Win = Win / np.sum(Win)
        cache = {}
        size = n + 2 * winw + Win.shape[0]
        P = convolve2D(hist, Win, 'same', largest_size=size, cache=cache)
        if meanlikes:
            likes = convolve2D(fine, Win, 'same', largest_size=size, cache=cache, cache_args=[2])
            if mult:
                ix = likes > 0
                fine[ix] /= likes[ix]
                likes2 = convolve2D(fine, Win, 'same', largest_size=size, cache=cache, cache_args=[2])
                likes2[ix] *= likes[ix]
                likes = likes2
            mx = 1e-4 * np.max(P)
            likes[P > mx] /= P[P > mx]
            likes[P <= mx] = 0
        if (parx.has_limits or pary.has_limits) and boundary >= 0:
            mask = np.ones((n + 2 * winw, n + 2 * winw))
            self._setEdgeMask2D(parx, pary, mask, winw)
            a00 = convolve2D(mask, Win, 'valid', largest_size=size, cache=cache)
            ix = a00 * P > np.max(P) * 1e-8
            a00 = a00[ix]
            normed = P[ix] / a00
            if boundary == 1:
                x = np.arange(-winw, winw + 1)
                y = np.empty(Win.shape)
                for i in range(Win.shape[0]):
                    y[:, i] = x
                winx = Win * x
                winy = Win * y
                a10 = convolve2D(mask, winx, 'valid', largest_size=size, cache=cache)[ix]
                a01 = convolve2D(mask, winy, 'valid', largest_size=size, cache=cache)[ix]
                a20 = convolve2D(mask, winx * x, 'valid', largest_size=size, cache=cache, cache_args=[1])[ix]
                a02 = convolve2D(mask, winy * y, 'valid', largest_size=size, cache=cache, cache_args=[1])[ix]
                a11 = convolve2D(mask, winy * x, 'valid', largest_size=size, cache=cache, cache_args=[1])[ix]
                xP = convolve2D(hist, winx, 'same', largest_size=size, cache=cache)[ix]
                yP = convolve2D(hist, winy, 'same', largest_size=size, cache=cache)[ix]
                A = a11 ** 2 - a02 * a20
                Ax = a10 * a02 - a01 * a11
                Ay = a01 * a20 - a10 * a11
                corrected = (P[ix] * A + xP * Ax + yP * Ay) / (a00 * A + a10 * Ax + a01 * Ay)
                P[ix] = normed * np.exp(np.minimum(corrected / normed, 4) - 1)
            elif boundary == 0:
                P[ix] = normed
            else:
                raise SettingError('')
        if mult:
            mask = np.ones((n + 2 * winw, n + 2 * winw))
            self._setEdgeMask2D(parx, pary, mask, winw, alledge=True)
            a00 = convolve2D(mask, Win, 'valid', largest_size=size, cache=cache, cache_args=[2])
            for _ in range(mult):
                box = hist.copy()
                ix2 = P > np.max(P) * 1e-8
                box[ix2] /= P[ix2]
                P *= convolve2D(box, Win, 'same', largest_size=size, cache=cache, cache_args=[2])
                P /= a00
        d = Density2D(np.linspace(xlo, xhi, n), np.linspace(ylo, yhi, n), P,
                      view_ranges=[(parx.range_min, parx.range_max), (pary.range_min, pary.range_max)])
        d.normalize('max', in_place=True)
        if get_density:
            return d
        k = len(self.contours)
        if num_plot_contours:
            k = min(num_plot_contours, k)
        d.contours = d.getContourLevels(self.contours[:k])
        if meanlikes:
            likes /= np.max(likes)
            d.likes = likes
        else:
            d.likes = None
        return d
'''
FFT = '''
class R:
    def convolveFFT(x, y, mode='same', yfft=None, xfft=None, largest_size=0, cache=None, cache_args=(1, 2)):
        size = x.size + y.size - 1
        fsize = nearestFFTnumber(np.maximum(largest_size, size))
        if yfft is None:
            if cache is not None and 2 in cache_args:
                key = (fsize, y.size, id(y))
                yfft = cache.get(key)
            if yfft is None:
                yfft = np.fft.rfft(y, fsize)
                if cache is not None and 2 in cache_args:
                    cache[key] = yfft
        if xfft is None:
            if cache is not None and 1 in cache_args:
                key = (fsize, x.size, id(x))
                xfft = cache.get(key)
            if xfft is None:
                xfft = np.fft.rfft(x, fsize)
                if cache is not None and 1 in cache_args:
                    cache[key] = xfft
        res = np.fft.irfft(xfft * yfft)[0:size]
        if mode == 'same':
            return res[(y.size - 1) // 2:(y.size - 1) // 2 + x.size]
        elif mode == 'full':
            return res
        elif mode == 'valid':
            return res[y.size - 1:x.size]

    def convolve1D(x, y, mode, largest_size=0, cache=None, cache_args=(1, 2)):
        if min(x.shape[0], y.shape[0]) > 1000:
            return convolveFFT(x, y, mode, largest_size=largest_size, cache=cache, cache_args=cache_args)
        return np.convolve(x, y, mode)

    def convolve2D(x, y, mode, largest_size=0, cache=None, cache_args=(1, 2)):
        return convolveFFTn(x, y, mode, largest_size, cache, cache_args=cache_args)

    def dct2d(a):
        return fftpack.dct(fftpack.dct(a, axis=0), axis=1)

    def idct2d(a):
        return fftpack.idct(fftpack.idct(a, axis=1), axis=0)
'''


def check(p, rep):
    rep.rule('grid', 'axes, normalisation, integrals and interpolation', 0)
    rep.rule('levels', 'contour levels', 0)
    rep.rule('binning', 'ranges and bins of a parameter', 0)
    rep.rule('estimate', 'kernel estimates and their prior boundaries', 0)
    rep.rule('convolution', 'parts of a convolution', 0)
    dm = p.module('getdist.densities')
    group(p, rep, 'levels', dm, LEVELS)
    group(p, rep, 'grid', p.cls('getdist.densities', 'GridDensity'), GRID)
    group(p, rep, 'grid', p.cls('getdist.densities', 'Density1D'), D1)
    group(p, rep, 'grid', p.cls('getdist.densities', 'Density2D'), D2)
    mc = p.cls('getdist.mcsamples', 'MCSamples')
    group(p, rep, 'binning', mc, MC)
    group(p, rep, 'estimate', p.cls('getdist.mcsamples', 'Kernel1D'), KERNEL)
    group(p, rep, 'estimate', mc, ONE)
    group(p, rep, 'estimate', mc, TWO)
    group(p, rep, 'convolution', p.module('getdist.convolve'), FFT)

"""P18: Gaussian mixtures agree with their own densities.

 mixture      moments, densities, samples and ranges of a mixture
 reduced      marginalised and conditional mixtures
 grid         densities on a grid
 special      one and two dimensional cases
"""
from .refspec import *

MIX = '''
class R:
    def __init__(self, means, covs, weights=None, lims=None, names=None, label='', labels=None):
        self.means = np.asarray(means)
        self.dim = self.means.shape[1]
        self.covs = [np.array(cov) for cov in covs]
        self.invcovs = [np.linalg.inv(cov) for cov in self.covs]
        if weights is None:
            weights = [1. / len(means)] * len(means)
        self.weights = np.array(weights, dtype=np.float64)
        if np.sum(self.weights) <= 0:
            raise ValueError('')
        self.weights /= np.sum(weights)
        self.norms = (2 * np.pi) ** (0.5 * self.dim) * np.array([np.sqrt(np.linalg.det(cov)) for cov in self.covs])
        self.lims = lims
        self.paramNames = ParamNames(names=names, default=self.dim, labels=labels)
        self.names = self.paramNames.list()
        self.label = label
        self.total_mean = np.atleast_1d(np.dot(self.weights, self.means))
        self.total_cov = np.zeros((self.dim, self.dim))
        for mean, cov, weight in zip(self.means, self.covs, self.weights):
            self.total_cov += weight * (cov + np.outer(mean - self.total_mean, mean - self.total_mean))

    def MCSamples(self, size, names=None, logLikes=False, random_state=None, **kwargs):
        samples = self.sim(size, random_state=random_state)
        return MCSamples(samples=samples, loglikes=-np.log(self.pdf(samples)) if logLikes else None, paramNamesFile=copy.deepcopy(self.paramNames),
                         names=names, ranges=self.lims, **kwargs)

    def pdf(self, x):
        tot = None
        x = np.asarray(x)
        for i, (mean, icov, weight, norm) in enumerate(zip(self.means, self.invcovs, self.weights, self.norms)):
            dx = x - mean
            if len(x.shape) == 1:
                res = np.exp(-icov.dot(dx).dot(dx) / 2) / norm
            else:
                res = np.exp(-np.einsum('ik,km,im->i', dx, icov, dx) / 2) / norm
            if not i:
                tot = res * weight
            else:
                tot += res * weight
        return tot

    def pdf_marged(self, index, x, no_limit_marge=False):
        if isinstance(index, str):
            index = self.names.index(index)
        if not no_limit_marge:
            self.checkNoLimits([index])
        tot = None
        for i, (mean, cov, weight) in enumerate(zip(self.means, self.covs, self.weights)):
            dx = x - mean[index]
            var = cov[index, index]
            res = np.exp(-dx ** 2 / var / 2) / np.sqrt(2 * np.pi * var)
            if not i:
                tot = res * weight
            else:
                tot += res * weight
        return tot

    def getUpper(self, name):
        return None if self.lims is None else self.lims[self.names.index(name)][1]

    def getLower(self, name):
        return None if self.lims is None else self.lims[self.names.index(name)][0]

    def checkNoLimits(self, keep_params):
        if self.lims is None:
            return
        for i, lim in enumerate(self.lims):
            if i not in keep_params and (lim[0] is not None or lim[1] is not None):
                raise Exception('')
'''
RANGES = '''
class R:
    def autoRanges(self, sigma_max=4, lims=None):
        res = []
        if lims is None:
            lims = self.lims
        if lims is None:
            lims = [(None, None) for _ in range(self.dim)]
        for i, (mn, mx) in enumerate(lims):
            covmin = None
            covmax = None
            if mn is None or mx is None:
                for mean, cov in zip(self.means, self.covs):
                    sigma = np.sqrt(cov[i, i])
                    xmin, xmax = mean[i] - sigma_max * sigma, mean[i] + sigma_max * sigma
                    if mn is not None:
                        xmax = max(xmax, mn + sigma_max * sigma)
                    if mx is not None:
                        xmin = min(xmin, mx - sigma_max * sigma)
                    covmin = min(xmin, covmin) if covmin is not None else xmin
                    covmax = max(xmax, covmax) if covmax is not None else xmax
            res.append((covmin if mn is None else mn, covmax if mx is None else mx))
        return res
'''
SIM = '''
class R:
    def sim(self, size, random_state=None):
        tot = 0
        res = []
        block = None
        random_state = np.random.default_rng(random_state)
        while True:
            for num, mean, cov in zip(random_state.multinomial(block or size, self.weights), self.means, self.covs):
                if num > 0:
                    v = random_state.multivariate_normal(mean, cov, size=num)
                    if self.lims is not None:
                        for i, (mn, mx) in enumerate(self.lims):
                            if mn is not None:
                                v = v[v[:, i] >= mn]
                            if mx is not None:
                                v = v[v[:, i] <= mx]
                    tot += v.shape[0]
                    res.append(v)
            if tot >= size:
                break
            if block is None:
                block = min(max(size, 100000), int(1.1 * (size * (size - tot))) // max(tot, 1) + 1)
        samples = np.vstack(res)
        if len(res) > 1:
            samples = random_state.permutation(samples)
        if tot != size:
            samples = samples[:-(tot - size), :]
        return samples
'''
REDUCED = '''
class R:
    def marginalizedMixture(self, params, label=None, no_limit_marge=False):
        indices = self._params_to_indices(params)
        if not no_limit_marge:
            self.checkNoLimits(indices)
        indices = np.array(indices)
        names = [self.names[i] for i in indices] if self.names is not None else None
        lims = [self.lims[i] for i in indices] if self.lims is not None else None
        covs = [cov[np.ix_(indices, indices)] for cov in self.covs]
        means = [mean[indices] for mean in self.means]
        tp = Mixture2D if len(indices) == 2 else MixtureND
        mixture = tp(means, covs, self.weights, lims=lims, names=names, label=self.label if label is None else label)
        mixture.paramNames.setLabelsAndDerivedFromParamNames(self.paramNames)
        return mixture

    def conditionalMixture(self, fixed_params, fixed_param_values, label=None):
        fixed_params = self._params_to_indices(fixed_params)
        self.checkNoLimits(fixed_params)
        keep_params = [i for i in range(self.dim) if i not in fixed_params]
        if not len(keep_params):
            raise ValueError('')
        new_means = []
        new_covs = []
        logws = []
        for mean, cov, invcov, weight in zip(self.means, self.covs, self.invcovs, self.weights):
            deltas = np.asarray(fixed_param_values) - mean[fixed_params]
            new_cov = np.linalg.inv(invcov[np.ix_(keep_params, keep_params)])
            fixed_cov = cov[np.ix_(fixed_params, fixed_params)]
            logws.append(np.linalg.inv(fixed_cov).dot(deltas).dot(deltas) + np.log(np.linalg.det(fixed_cov)))
            new_means.append(mean[keep_params] - new_cov.dot(invcov[np.ix_(keep_params, fixed_params)].dot(deltas)))
            new_covs.append(new_cov)
        new_weights = self.weights * np.exp(-(np.asarray(logws) - min(logws)) / 2)
        names = [self.names[i] for i in keep_params] if self.names is not None else None
        mixture = MixtureND(new_means, new_covs, new_weights, names=names, label=label)
        mixture.paramNames.setLabelsAndDerivedFromParamNames(self.paramNames)
        return mixture

    def _params_to_indices(self, params):
        indices = []
        if params is None:
            params = self.names
        for p in params:
            if isinstance(p, str):
                indices.append(self.names.index(p))
            elif hasattr(p, 'name'):
                indices.append(self.names.index(p.name))
            else:
                indices.append(p)
        return indices
'''
GRID = '''
class R:
    def density1D(self, index=0, num_points=1024, sigma_max=4, no_limit_marge=False):
        if isinstance(index, str):
            index = self.names.index(index)
        if not no_limit_marge:
            self.checkNoLimits([index])
        mn, mx = self.autoRanges(sigma_max)[index]
        x = np.linspace(mn, mx, num_points)
        return Density1D(x, self.pdf_marged(index, x, no_limit_marge))

    def density2D(self, params=None, num_points=1024, xmin=None, xmax=None, ymin=None, ymax=None, sigma_max=5):
        if self.dim > 2 or params is not None or not isinstance(self, Mixture2D):
            mixture = self.marginalizedMixture(params=params)
        elif self.dim != 2:
            raise Exception('')
        else:
            mixture = self
        return mixture._density2D(num_points=num_points, xmin=xmin, xmax=xmax, ymin=ymin, ymax=ymax, sigma_max=sigma_max)
'''
TWO = '''
class R:
    def __init__(self, means, covs, weights=None, lims=None, names=('x', 'y'), xmin=None, xmax=None, ymin=None, ymax=None, **kwargs):
        if lims is not None:
            limits = self._updateLimits(lims, xmin, xmax, ymin, ymax)
        else:
            limits = [(xmin, xmax), (ymin, ymax)]
        mats = []
        for cov in covs:
            if isinstance(cov, (list, tuple)) and len(cov) == 3 and not isinstance(cov[0], (list, tuple)):
                mats.append(make_2D_Cov(*cov))
            else:
                mats.append(cov)
        MixtureND.__init__(self, means, mats, weights, limits, names=names, **kwargs)

    def _updateLimits(self, lims, xmin=None, xmax=None, ymin=None, ymax=None):
        return [(xmin if xmin is not None else lims[0][0], xmax if xmax is not None else lims[0][1]),
                (ymin if ymin is not None else lims[1][0], ymax if ymax is not None else lims[1][1])]

    def _density2D(self, num_points=1024, xmin=None, xmax=None, ymin=None, ymax=None, sigma_max=5):
        lims = self._updateLimits(self.lims, xmin, xmax, ymin, ymax)
        rx, ry = self.autoRanges(sigma_max, lims=lims)
        x = np.linspace(rx[0], rx[1], num_points)
        y = np.linspace(ry[0], ry[1], num_points)
        xx, yy = np.meshgrid(x, y)
        return Density2D(x, y, self.pdf(xx, yy))

    def pdf(self, x, y=None):
        if y is None:
            return super().pdf(x)
        tot = None
        for i, (mean, icov, weight, norm) in enumerate(zip(self.means, self.invcovs, self.weights, self.norms)):
            dx = x - mean[0]
            dy = y - mean[1]
            res = np.exp(-(dx ** 2 * icov[0, 0] + 2 * dx * dy * icov[0, 1] + dy ** 2 * icov[1, 1]) / 2) / norm
            if not i:
                tot = res * weight
            else:
                tot += res * weight
        return tot
'''
ONE = '''
class R:
    def __init__(self, means, sigmas, weights=None, lims=None, name='x', xmin=None, xmax=None, **kwargs):
        if lims is not None:
            limits = [(xmin if xmin is not None else lims[0], xmax if xmax is not None else lims[1])]
        else:
            limits = [(xmin, xmax)]
        covs = [np.atleast_2d(sigma ** 2) for sigma in sigmas]
        means = [[mean] for mean in means]
        MixtureND.__init__(self, means, covs, weights, limits, names=[name], **kwargs)

    def pdf(self, x):
        return self.pdf_marged(0, x)
'''
GAUSS = '''
class R:
    def __init__(self, mean, cov, is_inv_cov=False, **kwargs):
        if isinstance(mean, str):
            mean = np.loadtxt(mean)
        if isinstance(cov, str):
            cov = np.loadtxt(cov)
        if is_inv_cov:
            cov = np.linalg.inv(cov)
        super().__init__([mean], [cov], **kwargs)
'''
G2 = '''
class R:
    def __init__(self, mean, cov, **kwargs):
        super().__init__([mean], [cov], **kwargs)
'''
COV = '''
class R:
    def make_2D_Cov(sigmax, sigmay, corr):
        return np.array([[sigmax ** 2, sigmax * sigmay * corr], [sigmax * sigmay * corr, sigmay ** 2]])
'''


def check(p, rep):
    rep.rule('mixture', 'moments, densities, samples and ranges of a mixture', 0)
    rep.rule('reduced', 'marginalised and conditional mixtures', 0)
    rep.rule('grid', 'densities on a grid', 0)
    rep.rule('special', 'one and two dimensional cases', 0)
    m = 'getdist.gaussian_mixtures'
    nd, two, one = (p.cls(m, x) for x in ('MixtureND', 'Mixture2D', 'Mixture1D'))
    at = ('means', 'dim', 'covs', 'invcovs', 'weights', 'norms', 'lims', 'paramNames', 'names', 'label', 'total_mean', 'total_cov')
    group(p, rep, 'mixture', nd, MIX, attrs=at)
    group(p, rep, 'mixture', nd, RANGES)
    group(p, rep, 'mixture', nd, SIM)
    group(p, rep, 'reduced', nd, REDUCED)
    group(p, rep, 'grid', nd, GRID)
    group(p, rep, 'special', two, TWO)
    group(p, rep, 'special', one, ONE)
    group(p, rep, 'special', p.cls(m, 'GaussianND'), GAUSS)
    for c in ('Gaussian2D', 'Gaussian1D'):
        group(p, rep, 'special', p.cls(m, c), G2.replace('cov', 'sigma') if c[8:] == '1D' else G2)
    group(p, rep, 'special', p.module(m), COV)

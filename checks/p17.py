"""P17: named statistics are the ones their definitions give.

 moments      means, variances, covariances and correlations
 likelihood   summary statistics of the likelihood
 chains       convergence, correlation length and effective numbers
 summary      statistics handed on under their names
"""
from fractions import Fraction
from .refspec import *

WS = '''
class R:
    def weighted_sum(self, paramVec, where=None):
        v = self._makeParamvec(paramVec)
        if where is None:
            return np.dot(self.weights, v)
        return np.dot(self.weights[where], v[where])

    def get_norm(self, where=None):
        if where is not None:
            return np.sum(self.weights[where])
        if self.norm is None:
            self.norm = np.sum(self.weights)
        return self.norm

    def mean(self, paramVec, where=None):
        if isinstance(paramVec, (list, tuple)):
            return np.array([self.weighted_sum(p, where) for p in paramVec]) / self.get_norm(where)
        return self.weighted_sum(paramVec, where) / self.get_norm(where)

    def var(self, paramVec, where=None):
        if isinstance(paramVec, (list, tuple)):
            return np.array([self.var(p, where) for p in paramVec])
        if where is None:
            return np.dot(self.mean_diff(paramVec) ** 2, self.weights) / self.get_norm()
        return np.dot(self.mean_diff(paramVec, where) ** 2, self.weights[where]) / self.get_norm(where)

    def std(self, paramVec, where=None):
        return np.sqrt(self.var(paramVec, where))

    def corr(self, pars=None):
        return covToCorr(self.cov(pars))

    def cov(self, pars=None, where=None):
        diffs = self.mean_diffs(pars, where)
        if pars is None:
            pars = list(range(self.n))
        n = len(pars)
        cov = np.empty((n, n))
        weights = self.weights if where is None else self.weights[where]
        for i, diff in enumerate(diffs):
            for j in range(i, n):
                cov[i, j] = np.dot(diff * weights, diffs[j])
                cov[j, i] = cov[i, j]
        cov /= self.get_norm(where)
        return cov

    def mean_diff(self, paramVec, where=None):
        if isinstance(paramVec, _int_types) and paramVec >= 0 and where is None:
            if self.diffs is not None:
                return self.diffs[paramVec]
            return self.samples[:, paramVec] - self.getMeans()[paramVec]
        v = self._makeParamvec(paramVec)
        if where is None:
            return v - self.mean(v)
        return v[where] - self.mean(v, where)

    def mean_diffs(self, pars=None, where=None):
        if pars is None:
            pars = self.n
        if isinstance(pars, _int_types) and pars >= 0 and where is None:
            means = self.getMeans()
            return [self.samples[:, i] - means[i] for i in range(pars)]
        if isinstance(pars, _int_types) and pars >= 0 and where is not None:
            return [self.mean_diff(i, where) for i in range(pars)]
        return [self.mean_diff(i, where) for i in pars]

    def setMeans(self):
        self.means = np.dot(self.weights, self.samples) / self.norm
        self.mean_loglike = None if self.loglikes is None else np.dot(self.weights, self.loglikes) / self.norm
        return self.means

    def getMeans(self, pars=None):
        if self.means is None:
            self.setMeans()
        if pars is None:
            return self.means
        return np.array([self.means[i] for i in pars])

    def getVars(self):
        if self.means is None:
            self.setMeans()
        self.vars = np.empty(self.n)
        for i in range(self.n):
            self.vars[i] = np.dot(self.weights, (self.samples[:, i] - self.means[i]) ** 2) / self.norm
        self.sddev = np.sqrt(self.vars)
        return self.vars

    def setDiffs(self):
        self.diffs = self.mean_diffs()
        return self.diffs

    def getCov(self, nparam=None, pars=None):
        if self.fullcov is None:
            self._setCov()
        if pars is None:
            return self.fullcov[:nparam, :nparam]
        return self.fullcov[np.ix_(pars, pars)]

    def _setCov(self):
        self.fullcov = self.cov()
        return self.fullcov

    def getCorrelationMatrix(self):
        if self.correlationMatrix is None:
            self.correlationMatrix = covToCorr(self.getCov())
        return self.correlationMatrix

    def getAutocorrelation(self, paramVec, maxOff=None, weight_units=True, normalized=True):
        if maxOff is None:
            maxOff = self.n - 1
        d = self.mean_diff(paramVec) * self.weights
        corr = autoConvolve(d, n=maxOff + 1, normalize=True)
        if normalized:
            corr = corr / self.var(paramVec)
        return corr * d.size / self.get_norm() if weight_units else corr

    def getCorrelationLength(self, j, weight_units=True, min_corr=0.05, corr=None):
        if corr is None:
            corr = self.getAutocorrelation(j, self.numrows // 10, weight_units=weight_units)
        first = np.argmin(corr > min_corr * corr[0])
        return corr[0] + 2 * np.sum(corr[1:first])

    def getEffectiveSamples(self, j=0, min_corr=0.05):
        return self.get_norm() / self.getCorrelationLength(j, min_corr=min_corr)

    def getSignalToNoise(self, params, noise=None, R=None, eigs_only=False):
        return getSignalToNoise(self.cov(params), noise, R, eigs_only)

    def reweightAddingLogLikes(self, logLikes):
        if self.loglikes is not None:
            self.loglikes = self.loglikes + logLikes
        self.weights = self.weights * np.exp(np.min(logLikes) - logLikes)
        self._weightsChanged()

    def cool(self, cool):
        best = np.max(self.loglikes)
        self.weights = self.weights * np.exp((1 - cool) * (self.loglikes - best))
        self.loglikes = self.loglikes * cool
        self._weightsChanged()

    def random_single_samples_indices(self, random_state=None, thin=None, max_samples=None):
        if max_samples is None:
            thin = thin or 1
        else:
            if thin is not None:
                raise WeightedSampleError('')
            thin = max(1, self.norm / np.max(self.weights) / max_samples)
        random_state = np.random.default_rng(random_state)
        rand = random_state.random(self.numrows)
        return np.nonzero(rand <= self.weights / (np.max(self.weights) * thin))[0]
'''
CH = '''
class R:
    def getGelmanRubinEigenvalues(self, nparam=None, chainlist=None):
        if chainlist is None:
            chainlist = self.getSeparateChains()
        nparam = nparam or self.paramNames.numNonDerived()
        means = self.getMeans()[:nparam]
        between = np.zeros((nparam, nparam))
        within = np.zeros((nparam, nparam))
        for chain in chainlist:
            d = chain.getMeans()[:nparam] - means
            between = between + np.outer(d, d)
            within = within + chain.getCov(nparam)
        between = between / (len(chainlist) - 1)
        within = within / len(chainlist)
        w, U = np.linalg.eigh(within)
        if np.min(w) > 0:
            U = U / np.sqrt(w)
            return np.linalg.eigvalsh(np.dot(np.dot(U.T, between), U))
        return None

    def getGelmanRubin(self, nparam=None, chainlist=None):
        return np.max(self.getGelmanRubinEigenvalues(nparam, chainlist))

    def updateBaseStatistics(self):
        self.getVars()
        self.mean_mult = self.norm / self.numrows
        self.max_mult = np.max(self.weights)
        self.updateChainBaseStatistics()
        self.needs_update = False
        return self
'''
MC = '''
class R:
    def _setLikeStats(self):
        if self.loglikes is None:
            self.likeStats = None
            return None
        m = types.LikeStats()
        best = np.min(self.loglikes)
        best_ix = np.argmin(self.loglikes)
        best = self.loglikes[best_ix]
        m.logLike_sample = best
        m.logMeanInvLike = np.log(self.mean(np.exp(self.loglikes - best))) + best if np.max(self.loglikes) - best < 30 else None
        m.meanLogLike = self.mean_loglike
        m.logMeanLike = best - np.log(self.mean(np.exp(best - self.loglikes)))
        m.complexity = 2 * (self.mean_loglike - best)
        self.likeStats = m
        return m

    def getCovMat(self):
        if self.needs_update:
            self.updateBaseStatistics()
        n = self.paramNames.numNonDerived()
        return covmat.CovMat(matrix=self.fullcov[:n, :n], paramNames=self.paramNames.list()[:n])

    def getFractionIndices(self, weights, n):
        return np.append(np.searchsorted(np.cumsum(weights), self.norm * np.linspace(0, 1, n, endpoint=False)), self.weights.shape[0])

    def makeSingleSamples(self, filename='', single_thin=None, random_state=None):
        if self.needs_update:
            self.updateBaseStatistics()
        if single_thin is None:
            single_thin = max(1, self.norm / self.max_mult / self.max_scatter_points)
        random_state = np.random.default_rng(random_state)
        rand = random_state.random(self.numrows)
        if not filename:
            return self.samples[rand <= self.weights / (self.max_mult * single_thin)]
'''
FN = '''
class R:
    def getSignalToNoise(C, noise=None, R=None, eigs_only=False):
        if R is None:
            if noise is None:
                raise WeightedSampleError('')
            R = np.linalg.inv(np.linalg.cholesky(noise))
        M = np.dot(np.dot(R, C), R.T)
        if eigs_only:
            return np.linalg.eigvalsh(M)
        w, U = np.linalg.eigh(M)
        return w, np.dot(U.T, R)

    def covToCorr(cov, copy=True):
        if copy:
            cov = cov.copy()
        for i, di in enumerate(np.sqrt(cov.diagonal())):
            if di:
                cov[i, :] = cov[i, :] / di
                cov[:, i] = cov[:, i] / di
        return cov
'''
CONV = '''
class R:
    def autoCorrelation(x, n=None, normalized=True, start_index=0):
        result = autoConvolve(x - x.mean(), n, normalize=True)
        if normalized:
            result = result / result[0]
        return result[start_index:]
'''
BF = '''
class R:
    def chiSquareForKindName(self, kind, name):
        for akind, val in self.chiSquareds:
            if akind == kind and val.name == name:
                return val.chisq
        return None
'''


def weights_of(key):
    return mentions(key, ('attr', ('self',), 'weights'))


def hook(cn, t):
    """sums over samples: one linear form for dot products and sums with the weights"""
    a = None
    if t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] in ('numpy.asarray', 'numpy.array') and len(t.args[1]) == 1 and t.args[1][0].op == 'attr':
        return cn.poly(t.args[1][0])
    if t.op == 'bin' and t.args[0] == '@':
        a = t.args[1:]
    elif t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] in ('numpy.dot', 'numpy.vdot', 'numpy.inner', 'numpy.matmul') and len(t.args[1]) == 2:
        a = t.args[1]
    elif t.op == 'meth' and t.args[1] == 'dot' and len(t.args[2]) == 1:
        a = (t.args[0], t.args[2][0])
    if a is not None:
        if any(weighted(x) for x in a):
            return linear(cn.poly(a[0]) * cn.poly(a[1]))
        return None
    if t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] == 'numpy.average' and t.args[1]:
        w = dict(t.args[2]).get('weights')
        if w is not None and set(dict(t.args[2])) <= {'weights', '$at'} and len(t.args[1]) == 1:
            return linear(cn.poly(t.args[1][0]) * cn.poly(w)) * linear(cn.poly(w)).power(-1)
    if t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] == 'numpy.sum' and len(t.args[1]) == 1 and not [k for k, v in t.args[2] if k != '$at'] and weighted(t.args[1][0]):
        return linear(cn.poly(t.args[1][0]))
    if t.op == 'meth' and t.args[1] == 'sum' and not t.args[2] and not t.args[3] and weighted(t.args[0]):
        return linear(cn.poly(t.args[0]))
    return None


def weighted(t):
    return any(x.op == 'attr' and x.args[1] == 'weights' for x in walk(t))


def linear(p):
    return Poly({((('S', k), Fraction(1)),): v for k, v in p.m.items()})




FULL = ('weighted_sum', 'get_norm', 'mean', 'var', 'std', 'mean_diff', 'mean_diffs', 'cov', 'corr')


def check(p, rep):
    rep.rule('moments', 'means, variances, covariances and correlations', 0)
    rep.rule('likelihood', 'summary statistics of the likelihood', 0)
    rep.rule('chains', 'convergence, correlation length and effective numbers', 0)
    ws = p.cls('getdist.chains', 'WeightedSamples')
    group(p, rep, 'moments', ws, WS, hook, full=FULL)
    ch = p.cls('getdist.chains', 'Chains')
    group(p, rep, 'chains', ch, CH, hook, full=FULL)
    mc = p.cls('getdist.mcsamples', 'MCSamples')
    group(p, rep, 'likelihood', mc, MC, hook, full=FULL, attrs=('logMeanInvLike', 'meanLogLike', 'logMeanLike', 'complexity', 'logLike_sample', 'likeStats'))
    group(p, rep, 'chains', p.module('getdist.chains'), FN)
    group(p, rep, 'chains', p.module('getdist.convolve'), CONV)
    group(p, rep, 'summary', p.cls('getdist.types', 'BestFit'), BF)

"""The standard support of each distribution of scipy, by its documentation:
name: (shape parameters, [(condition, left, right)...]).  Used as the contract
of scipy by the proofs, and compared with scipy by the suites."""
_pos = 'alpha:a betaprime:a,b burr:c,d burr12:c,d chi:df chi2:df erlang:a expon: exponweib:a,c exponpow:b f:dfn,dfd fatiguelife:c fisk:c foldcauchy:c foldnorm:c genexpon:a,b,c gamma:a gengamma:a,c geninvgauss:p,b gilbrat: gompertz:c halfcauchy: halflogistic: halfnorm: halfgennorm:beta invgamma:a invgauss:mu invweibull:c kappa3:a kstwobign: levy: loglaplace:c lognorm:s lomax:c maxwell: mielke:k,s nakagami:nu ncx2:df,nc ncf:dfn,dfd,nc powerlognorm:c,s rayleigh: rice:b recipinvgauss:mu wald: weibull_min:c'
_real = 'cauchy: crystalball:beta,m dgamma:a dweibull:c exponnorm:K genlogistic:c gennorm:beta gumbel_r: gumbel_l: hypsecant: johnsonsu:a,b laplace: levy_stable:alpha,beta logistic: loggamma:c moyal: nct:df,nc norm: norminvgauss:a,b pearson3:skew powernorm:c skewnorm:a t:df tukeylambda:lam'
_unit = 'arcsine: argus:chi beta:a,b bradford:c gausshyper:a,b,c,z johnsonsb:a,b ksone:n powerlaw:a trapz:c,d triang:c uniform:'
SUPPORTS = {}
for _l, _s in ((_pos, ('0', 'oo')), (_real, ('-oo', 'oo')), (_unit, ('0', '1'))):
    for _e in _l.split():
        _n, _p = _e.split(':')
        SUPPORTS[_n] = ([x for x in _p.split(',') if x], [('True',) + _s])
SUPPORTS.update({
    'anglit': ([], [('True', '-pi/4', 'pi/4')]),
    'cosine': ([], [('True', '-pi', 'pi')]),
    'genextreme': (['c'], [('c == 0', '-oo', 'oo'), ('c > 0', '-oo', '1/c'), ('c < 0', '1/c', 'oo')]),
    'genhalflogistic': (['c'], [('c > 0', '0', '1/c')]),
    'genpareto': (['c'], [('c >= 0', '0', 'oo'), ('c < 0', '0', '-1/c')]),
    'kappa4': (['h', 'k'], [('True', '-oo', 'oo')]),
    'levy_l': ([], [('True', '-oo', '0')]),
    'loguniform': (['a', 'b'], [('And(0 < a, a < b)', 'a', 'b')]),
    'pareto': (['b'], [('b > 0', '1', 'oo')]),
    'rdist': (['c'], [('c > 0', '-1', '1')]),
    'semicircular': ([], [('True', '-1', '1')]),
    'truncexpon': (['b'], [('b > 0', '0', 'b')]),
    'truncnorm': (['a', 'b'], [('a < b', 'a', 'b')]),
    'vonmises': (['kappa'], [('kappa > 0', '-pi', 'pi')]),
    'vonmises_line': (['kappa'], [('kappa > 0', '-pi', 'pi')]),
    'weibull_max': (['c'], [('c > 0', '-oo', '0')]),
    'wrapcauchy': (['c'], [('And(0 < c, c < 1)', '0', '2*pi')]),
})
# Outcomes are integers; shapes that are integers are named with a capital I.
DISCRETE = {
    'bernoulli': (['p'], [('True', '0', '1')]),
    'betabinom': (['n:I', 'a', 'b'], [('n >= 0', '0', 'n')]),
    'binom': (['n:I', 'p'], [('n >= 0', '0', 'n')]),
    'boltzmann': (['lambda_', 'N:I'], [('N > 0', '0', 'N - 1')]),
    'dlaplace': (['a'], [('True', '-oo', 'oo')]),
    'geom': (['p'], [('True', '1', 'oo')]),
    'hypergeom': (['M:I', 'n:I', 'N:I'], [('And(0 < M, 0 <= n, n <= M, 0 <= N, N <= M)', 'maximum(N - M + n, 0)', 'minimum(n, N)')]),
    'logser': (['p'], [('True', '1', 'oo')]),
    'nbinom': (['n', 'p'], [('True', '0', 'oo')]),
    'planck': (['lambda_'], [('lambda_ > 0', '0', 'oo')]),
    'poisson': (['mu'], [('mu >= 0', '0', 'oo')]),
    'randint': (['low:I', 'high:I'], [('low + 1 <= high', 'low', 'high - 1')]),
    'skellam': (['mu1', 'mu2'], [('True', '-oo', 'oo')]),
    'zipf': (['a'], [('a > 1', '1', 'oo')]),
    'yulesimon': (['alpha'], [('alpha > 0', '1', 'oo')]),
}

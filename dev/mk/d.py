from mk import *
import sys
only=sys.argv[1:]
_seed=seed
def seed(id,*a):
    if not only or id in only: _seed(id,*a)

seed('C15-one-error-list','C15',[(P,'''            if errors is None:
                self.data = DataStructure(timeseries, values)
            else:
                self.data = DataStructure(timeseries, values, errors)
''','''            if errors is None:
                self.data = DataStructure(timeseries, values)
            elif len(errors) != len(values):
                # one list of errors for all series
                self.data = DataStructure(timeseries, values, [errors[0]] * len(values))
            else:
                self.data = DataStructure(timeseries, values, errors)
''')],'''
from sacf import SACF
from sacf.datastructure import BadDataInputException
t = [0, 1, 3]
for es in ([[1, 1, 1]], [[1, 1, 1]] * 3):
    try:
        SACF(t, [[1, 2, 4], [0, 1, 3]], es)
    except BadDataInputException:
        continue
    raise SystemExit('accepted %d error series for two data series' % len(es))
SACF(t, [[1, 2, 4], [0, 1, 3]], [[1, 1, 1], [2, 2, 2]])
''','several series and a different number of error series','a wrong number of error series is patched up instead of rejected')

seed('C24-weighted-mean','C24',[(D,'''    setDataMean();
    settMax();
''','''    setDataMean();
    if(N_datasets > 1 && !err.empty()){
        // values without a usable error do not count for the mean
        for(int j = 0; j < N_datasets; j++){
            double sum = 0;
            int used = 0;
            for(int i = 0; i < M_datapoints; i++){
                double X = _data[getVectorIndex(i, j)];
                if(std::isnan(X) || !(err[getVectorIndex(i, j)] > 0)){ continue; }
                sum += X;
                used++;
            }
            if(used > 0){ data_mean[j] = sum / used; }
        }
    }
    settMax();
''')],'''
from sacf import SACF
t = [0, 1, 3, 4.5]
x = [[1, 2, 4, 0], [0, 1, 3, 7]]
ref = SACF(t, x).autocorrelation()
for bad in (1.0, 0.0, -1.0, float('nan')):
    e = [[1, 1, 1, 1], [2, 2, bad, 2]]
    got = SACF(t, x, e).autocorrelation()
    assert got[0] == ref[0]
    assert all(abs(p - q) < 1e-9 for a, b in zip(got[1], ref[1]) for p, q in zip(a, b)), bad
''','several series with an error that is zero, negative or NaN','such values are left out of the mean of their series, so all its estimates change')

seed('C25-far-pairs','C25',[(C,'''void Correlator::deltaT(CorrelationIterator* cor_it){
    // returns a vector corresponding to the 'delta t' for each time point t_i + k subject to a selection index vector
''','''void Correlator::deltaT(CorrelationIterator* cor_it){
    // returns a vector corresponding to the 'delta t' for each time point t_i + k subject to a selection index vector
    // pairs much farther apart than a lag step belong to other lags
    double limit = 50 * lag_resolution;
    for(size_t i = 0; i < cor_it->selection_indices.size(); i++){
        double apart = std::abs(ds->rnormalised_timeseries()->at(cor_it->selection_indices[i]) - cor_it->shifted_timeseries[i]);
        if(apart > limit){
            cor_it->selection_indices.resize(i);
            break;
        }
    }
''')],'''
from sacf import SACF
t = [0, 1, 2.5, 7, 9]
x = [1, -2, 4, 0, 3]
s = SACF(t, x)
for w in ('fractional', 'gaussian'):
    fine = s.autocorrelation(min_lag=-1, max_lag=4, lag_resolution=1 / 64, weight_function=w)
    for lag in (-1, 2, 4):
        alone = s.autocorrelation(min_lag=lag, max_lag=lag, lag_resolution=100, weight_function=w)[1][-1]
        i = fine[0].index(lag)
        assert abs(fine[1][i] - alone) < 1e-9, (w, lag, fine[1][i], alone)
''','a grid much finer than the sampling, and a gap in the sampling','pairs farther apart than fifty lag steps, and all after the first such pair, are left out, so an estimate depends on the resolution of its grid')

seed('C26-first-kept','C26',[(C,'''    correlation_data._timeseries[timestep_number] = col_it->k;
    for(int j = 0; j < N_datasets; j++){
''','''    correlation_data._timeseries[timestep_number] = col_it->k;
    if(timestep_number > 0 && correlation_data._timeseries[timestep_number - 1] > col_it->k){
        // results are stored in order of their lags
        std::swap(correlation_data._timeseries[timestep_number - 1], correlation_data._timeseries[timestep_number]);
    }
    for(int j = 0; j < N_datasets; j++){
''')],'''
from sacf.correlator import Correlator, CorrelationIterator
from sacf.datastructure import DataStructure
c = Correlator(DataStructure([0, 1, 3, 4.5], [1, -2, 4, 0]))
def store(k, i):
    it = CorrelationIterator(k, 1)
    c.naturalSelectionFunctionIdx(it)
    c.deltaT(it)
    c.getFractionWeights(it)
    c.findCorrelation(it)
    c.addCorrelationData(it, i)
    return it.correlation[0]
v = [store(2, 0), store(1, 1), store(-1, 2)]
c.cleanCorrelationData(3)
assert list(c.lag_timeseries()) == [2, 1, -1], c.lag_timeseries()
assert list(c.correlations()[0]) == v
''','lags stored in falling order','the lags of two neighbouring results change places, their correlations do not')

seed('C27-lag-read-early','C27',[(CH,'''    std::vector<double> weights;
''','''    std::vector<double> weights;
    double first_k;  // the lag this iterator was made for
'''),(C,'''    k = k_in;
    correlation''','''    k = k_in;
    first_k = k_in;
    correlation'''),(C,'''        if((time_point + cor_it->k) >= ds->rnormalised_timeseries()->back()){''','''        if((time_point + cor_it->first_k) >= ds->rnormalised_timeseries()->back()){''')],'''
from sacf.correlator import Correlator, CorrelationIterator
from sacf.datastructure import DataStructure
c = Correlator(DataStructure([0, 1, 3, 4.5], [1, -2, 4, 0]))
a = CorrelationIterator(1.5, 1)
b = CorrelationIterator(0, 1)
b.k = 1.5
for it in (a, b):
    c.fastSelectionFunctionIdx(it)
    c.deltaT(it)
    c.getGaussianWeights(it)
    c.findCorrelation(it)
assert list(a.selection_indices) == list(b.selection_indices)
assert list(a.correlation) == list(b.correlation)
''','an iterator whose lag is assigned after it was built, with fast selection','which samples are kept follows the lag at construction, the rest the assigned one')

seed('C27-shared-distances','C27',[(CH,'''    int num_lag_steps;
''','''    int num_lag_steps;
    std::vector<double> distances;  // of the lag being computed
'''),(C,'''    cor_it->shifted_timeseries.clear();
}

void Correlator::getFractionWeights(CorrelationIterator* cor_it){
    int i = 0;
    for(auto const& value: cor_it->delta_t){''','''    distances = cor_it->delta_t;
    cor_it->shifted_timeseries.clear();
}

void Correlator::getFractionWeights(CorrelationIterator* cor_it){
    int i = 0;
    for(auto const& value: distances){''')],'''
from sacf.correlator import Correlator, CorrelationIterator
from sacf.datastructure import DataStructure
c = Correlator(DataStructure([0, 1, 3, 4.5], [1, -2, 4, 0]))
def begin(k):
    it = CorrelationIterator(k, 1)
    c.naturalSelectionFunctionIdx(it)
    c.deltaT(it)
    return it
def end(it):
    c.getFractionWeights(it)
    return list(it.weights)
alone = end(begin(0.4))
a = begin(0.4)
b = begin(0.3)
assert end(a) == alone, (alone,)
''','two iterators worked on in turn on one correlator','the fractional weights are those of the distances computed last, of whichever iterator')

seed('C28-moved-out','C28',[(D,'''            dataset[i] = err[getVectorIndex(i, j)];
        }
        err_2d[j] = dataset;
    }
''','''            dataset[i] = err[getVectorIndex(i, j)];
        }
        err_2d[j] = dataset;
    }
    if(N_datasets > 1){ err.clear(); }  // not used for anything else
''')],'''
from sacf import SACF
s = SACF([0, 1, 3], [[1, 2, 4], [0, 1, 3]], [[1, 1, 2], [3, 1, 1]])
assert s.data.errors() == [[1, 1, 2], [3, 1, 1]]
assert s.data.errors() == [[1, 1, 2], [3, 1, 1]], s.data.errors()
''','several series with errors, read twice','the second reading of the errors gives nothing')

seed('C28-read-sorts','C28',[(C,'''std::vector<double> Correlator::lag_timeseries() { return correlation_data._timeseries; };''','''std::vector<double> Correlator::lag_timeseries() {
    // lags are reported relative to the resolution they were computed with, without the noise of summing them up
    for(auto& k: correlation_data._timeseries){
        double steps = k / lag_resolution;
        if(std::abs(steps - std::round(steps)) < 1e-12){ k = std::round(steps) * lag_resolution; }
    }
    return correlation_data._timeseries;
};'''),(C,'''double Correlator::getLagResolution(){
    return lag_resolution;
}''','''double Correlator::getLagResolution(){
    if(!correlation_data._timeseries.empty() && correlation_data._timeseries.size() > 1){
        // the step of the stored lags
        lag_resolution = correlation_data._timeseries[1] - correlation_data._timeseries[0];
    }
    return lag_resolution;
}''')],'''
from sacf import SACF
s = SACF([0, 1, 3], [1, 2, 4])
def run(read):
    c = s.autocorrelation(min_lag=-0.5, max_lag=2, lag_resolution=1.25, return_correlator=True)[2]
    if read:
        c.lag_resolution
    c.calculateStandardCorrelation()
    return c.lag_timeseries()
assert run(False) == run(True), (run(False), run(True))
''','a grid that steps over zero, the resolution read between two computations','reading the resolution changes it to the first step of the stored lags, which is shorter where lag 0 was inserted')

seed('C29-truth-of-errors','C29',[(P,'''            if errors is None:
                self.data = DataStructure(timeseries, values)
''','''            if errors is None or not any(errors):
                self.data = DataStructure(timeseries, values)
''')],'''
import numpy as np
from sacf import SACF
t = [0, 1, 3]
x = [[1, 2, 4], [0, 1, 3]]
e = [[1, 1, 2], [3, 1, 1]]
want = SACF(t, x, e).data.errors()
assert SACF(np.array(t), np.array(x), np.array(e)).data.errors() == want
assert SACF(t, x, tuple(tuple(v) for v in e)).data.errors() == want
''','errors of several series given as a two-dimensional array','an array of errors raises where lists work')

seed('C29-int-lag','C29',[(P,'''        if lag_resolution is not None:
            corr.lag_resolution = lag_resolution
''','''        if lag_resolution is not None:
            if isinstance(lag_resolution, int):
                # a number of default steps
                lag_resolution = lag_resolution * corr.lag_resolution
            corr.lag_resolution = lag_resolution
''')],'''
from sacf import SACF
s = SACF([0, 2, 5, 9], [1, 2, 4, 0])
a = s.autocorrelation(min_lag=0, max_lag=6, lag_resolution=3)
b = s.autocorrelation(min_lag=0, max_lag=6, lag_resolution=3.0)
assert a == b, (a, b)
''','a resolution given as a whole number, and a smallest gap other than 1','a whole-number resolution is taken in units of the default one')

seed('C12-end-iterator','C12',[(C,'''            if(idx != 0){ //i.e. not the first index''','''            if(idx != 0 || cor_it->shifted_timeseries[i] < -max_lag){ //i.e. not the first index''')],'''
import os, subprocess, sys
code = """
from sacf import SACF
s = SACF([0, 1, 3], [1, 2, 4])
print(s.autocorrelation(min_lag=-6, max_lag=0, lag_resolution=1.5)[1])
"""
p = subprocess.run([sys.executable, '-c', code], env=os.environ, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
assert p.returncode == 0, p.stderr.decode()[-300:]
''','lags below minus the time span','the search looks at the sample before the first one')

seed('C04-last-lag-drop','C04',[(P,'''                yield k
                k += lag_resolution
''','''                yield k
                if k < 0 and k + lag_resolution > max_lag:
                    # the last step ends on max_lag
                    lag_resolution = max_lag - k or lag_resolution
                k += lag_resolution
''')],'''
from sacf import SACF
s = SACF([0, 1, 3], [1, 2, 4])
for w in ('fractional', 'gaussian'):
    l = s.autocorrelation(min_lag=-3, max_lag=-0.5, lag_resolution=1, weight_function=w)[0]
    assert l == [-3, -2, -1], (w, l)
''','a grid of negative lags only that does not end on max_lag, step by step','max_lag itself is added as a last lag')

seed('C11-order','C11',[(C,'''void Correlator::setMinLag(double min_lag_in){
    min_lag = min_lag_in;
}''','''void Correlator::setMinLag(double min_lag_in){
    min_lag = min_lag_in;
    if(min_lag > max_lag){ max_lag = min_lag; }  // at least one lag
}''')],'''
from sacf import SACF
s = SACF([0, 1, 3], [1, 2, 4])
lags, c, cor = s.autocorrelation(min_lag=2, max_lag=1, return_correlator=True)
assert cor.max_lag == 1 and lags == [], (cor.max_lag, lags)
lags, c, cor = s.autocorrelation(min_lag=5, return_correlator=True)
assert cor.max_lag == 3 and lags == [], (cor.max_lag, lags)
''','min_lag above max_lag','max_lag is raised to min_lag')

seed('C19-iterator-owner','C19',[(B,'''        .def("addCorrelationData", &Correlator::addCorrelationData)
''','''        .def("addCorrelationData", [](Correlator& c, CorrelationIterator* it, int i){
            if(it->correlation.size() == c.getNDatasets()){ c.addCorrelationData(it, i); }
        })
'''),(B,'''py::keep_alive<1, 2>())''','''py::keep_alive<2, 1>())''')],'''
import os, subprocess, sys
code = """
import gc
from sacf.correlator import Correlator
from sacf.datastructure import DataStructure
cs = [Correlator(DataStructure([0, 1, 3 + i], [1, 2 + i, 4])) for i in range(50)]
for _ in range(5): gc.collect()
junk = [DataStructure([5, 6, 7], [9, 9, 8]) for i in range(200)]
for i, c in enumerate(cs):
    assert c.normalised_timeseries() == [0, 1, 3 + i], i
    assert c.values() == [[1, 2 + i, 4]]
"""
p = subprocess.run([sys.executable, '-c', code], env=os.environ, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
assert p.returncode == 0, p.stderr.decode()[-300:]
''','the data set collected while its correlator is in use','the tie that keeps the data set alive points the wrong way')

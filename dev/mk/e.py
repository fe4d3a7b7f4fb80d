from mk import *
import sys
only=sys.argv[1:]
_seed=seed
def seed(id,*a):
    if not only or id in only: _seed(id,*a)

seed('C30-whole-text','C30',[(D,'''    if(file.good()){
        while (std::getline(file, line, '\\n')) {
''','''    std::stringstream content;
    content << file.rdbuf();
    if(file.good()){
        while (std::getline(content, line, '\\n')) {
''')],'''
import os, tempfile
from sacf import SACF, BadDataFileReadException
d = tempfile.mkdtemp()
try:
    try:
        SACF(filename=d)
    except BadDataFileReadException:
        pass
    else:
        raise SystemExit('no error')
finally:
    os.rmdir(d)
''','reading that fails after the file was opened, as with a directory','the failure is not noticed: what was read before it is taken for the whole file')

seed('C30-peek','C30',[(D,'''    if(file.good()){
        while (std::getline(file''','''    if(file.peek() == std::ifstream::traits_type::eof()){ throw EmptyDSEx; }  // nothing to read
    if(file.good()){
        while (std::getline(file''')],'''
import os, tempfile
from sacf import SACF, BadDataFileReadException
d = tempfile.mkdtemp()
try:
    try:
        SACF(filename=d)
    except BadDataFileReadException:
        pass
finally:
    os.rmdir(d)
''','a file whose first read fails','it is reported as an empty file')

seed('C14-memo','C14',[(P,'''        corr = Correlator(self.data)
        self.set_up_correlation(corr''','''        key = (min_lag, max_lag, lag_resolution, alpha, selection_function, weight_function)
        if not hasattr(self, "_results"):
            self._results = {}
        if key in self._results and not return_correlator:
            return self._results[key]
        corr = Correlator(self.data)
        self.set_up_correlation(corr'''),(P,'''            return (
                corr.lag_timeseries(),
                corr.correlations()
                if len(corr.correlations()) > 1.0
                else corr.correlations()[0],
            )''','''            self._results[key] = (
                corr.lag_timeseries(),
                corr.correlations()
                if len(corr.correlations()) > 1.0
                else corr.correlations()[0],
            )
            return self._results[key]''')],'''
from sacf import SACF
s = SACF([0, 1, 3, 4.5], [1, 2, 4, 0])
lags, c = s.autocorrelation(max_lag=2)
want = list(c)
c.sort()
lags.reverse()
assert s.autocorrelation(max_lag=2)[1] == want
''','the same call twice, the lists of the first changed in between','the changed lists are returned again')

seed('C14-scratch','C14',[(D,'''        std::vector<double> x_copy(M_datapoints);''','''        static std::vector<double> x_copy(M_datapoints);  // scratch space, kept between series''')],'''
import os, subprocess, sys
code = """
from sacf import SACF
for n in (3, 50, 700, 9000, 200000):
    s = SACF([float(i) for i in range(n)], [float(i % 5) for i in range(n)])
    assert abs(s.data.mean_data[0] - sum(i % 5 for i in range(n)) / n) < 1e-9
"""
p = subprocess.run([sys.executable, '-c', code], env=os.environ, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
assert p.returncode == 0, p.stderr.decode()[-300:]
''','a data set larger than the first one of the process','the scratch space of the first is written past its end')

seed('C12-single-sample','C12',[(C,'''   double diff = DBL_MAX;
   int n = arr->size();
''','''   int n = arr->size();
   if(n < 2){ return 0; }  // no neighbours, no gap
   double diff = DBL_MAX;
''')],'''
import os, subprocess, sys
code = """
from sacf import SACF
lags, c = SACF([2.5], [1.0]).autocorrelation()
assert lags == [0] and len(c) == 1
"""
try:
    p = subprocess.run([sys.executable, '-c', 'import resource; resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))' + code], env=os.environ, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=20)
except subprocess.TimeoutExpired:
    raise SystemExit('does not end')
assert p.returncode == 0, p.stderr.decode()[-300:]
''','a data set of one sample','the default resolution is 0 and the computation never ends')

seed('C18-stop','C18',[(D,'''                if(linestream >> t_val >> X_val){''','''                // a footer ends the data
                if(t_in.size() > 1 && std::isalpha((unsigned char) line[0])){ break; }
                if(linestream >> t_val >> X_val){''')],'''
import os, tempfile
from sacf import SACF
f = tempfile.NamedTemporaryFile('w', suffix='.dat', delete=False)
f.write('time flux\\n0 1\\n1 2\\nsecond night\\n2 5\\n3 4\\n')
f.close()
try:
    assert SACF(filename=f.name).data.timeseries() == [0, 1, 2, 3]
finally:
    os.unlink(f.name)
''','a title line after at least two rows, with rows after it','the rows after it are lost')

seed('C13-new-grid','C13',[(C,'''    lag_resolution = lag_res;
''','''    if(lag_res != lag_resolution){ clearCorrelation(); }  // the lags stored are of another grid
    lag_resolution = lag_res;
''')],'''
from sacf import SACF
s = SACF([0, 1, 3, 4.5], [1, 2, 4, 0])
lags, c, cor = s.autocorrelation(max_lag=2, return_correlator=True)
cor.lag_resolution = 0.5
assert cor.lag_timeseries() == lags and cor.correlations() == [c]
''','a resolution set on a correlator that holds results','the results are gone')

seed('C03-same-weight','C03',[(C,'''    for(auto const& value: cor_it->delta_t){
        cor_it->weights.push_back(gaussianWeightFunction(value));
        i++;
    }''','''    double last = -1, weight = 0;
    for(auto const& value: cor_it->delta_t){
        if(std::abs(value - last) > 1e-6){  // the exponential is slow: not again for the same distance
            weight = gaussianWeightFunction(value);
            last = value;
        }
        cor_it->weights.push_back(weight);
        i++;
    }''')],'''
from math import exp
from sacf.correlator import Correlator, CorrelationIterator
from sacf.datastructure import DataStructure
d = DataStructure([0, 1e-7, 2.5e-7, 6e-7], [1, 2, 4, 0])
c = Correlator(d)
c.alpha = 1e-7
it = CorrelationIterator(0.6e-7, 1)
c.naturalSelectionFunctionIdx(it)
c.deltaT(it)
ds = it.delta_t
c.getGaussianWeights(it)
assert all(abs(w - exp(-v * v / 2e-14)) < 1e-9 for v, w in zip(ds, it.weights)), (ds, it.weights)
''','distances that differ by less than a millionth','they all get the weight of the first')

seed('C08-norm-of-first','C08',[(C,'''        cor_it->correlation[j] *= (1 / N[j]);''','''        cor_it->correlation[j] *= (1 / N[cor_it->weights.size() > 1 ? j : 0]);''')],'''
from sacf import SACF
t = [0, 1, 3, 4.5]
x = [[1, 2, 4, 0], [0, 10, 30, 7]]
lags, c = SACF(t, x).autocorrelation()
for j in (0, 1):
    l1, c1 = SACF(t, x[j]).autocorrelation()
    assert all(abs(a - b) < 1e-9 for a, b in zip(c[j], c1)), j
''','a lag that leaves a single pair, several series','the second series is normalised as the first')

seed('C20-far-side','C20',[(C,'''        if (idx != 0 && std::abs(cor_it''','''        if (idx > 1 && std::abs(cor_it''')],'''
from sacf.correlator import Correlator, CorrelationIterator
from sacf.datastructure import DataStructure
c = Correlator(DataStructure([0, 10, 20, 30], [1, 2, 4, 0]))
for k, want in ((1, 0), (9, 1), (11, 1), (4, 0)):
    it = CorrelationIterator(k, 1)
    c.fastSelectionFunctionIdx(it)
    assert it.selection_indices[0] == want, (k, list(it.selection_indices))
''','a lag smaller than half the first gap','the first sample is paired with the second observation')

seed('C04-skipped-zero','C04',[(C,'''    bool is_positive = false;
    int i = 0;''','''    bool is_positive = min_lag + lag_resolution > max_lag;  // a single lag needs no zero
    int i = 0;''')],'''
from sacf import SACF
s = SACF([0, 1, 3, 4.5], [1, 2, 4, 0])
for lo, hi, res in ((1, 1, 1), (0.5, 1, 1), (2, 4, 3)):
    lags, c = s.autocorrelation(min_lag=lo, max_lag=hi, lag_resolution=res)
    assert lags == [0, lo], lags
''','a grid of one positive lag','lag zero is missing')

seed('C17-other-series','C17',[(C,'''            if(!std::isnan(X)){
                N[j] +=''','''            if(!std::isnan(X) && !std::isnan(ds->rdata()->at(ds->getVectorIndex(i, N_datasets - 1)))){
                N[j] +=''')],'''
from sacf import SACF
nan = float('nan')
t = [0, 1, 3, 4.5]
x = [1, 2, 4, 0]
ref = SACF(t, x).autocorrelation()[1]
got = SACF(t, [x, [3, nan, 1, 2]]).autocorrelation()[1][0]
assert all(abs(a - b) < 1e-9 for a, b in zip(ref, got))
''','a NaN in the last of several series','the other series are normalised without that sample')

seed('C02-single-end','C02',[(C,'''        if((time_point + cor_it->k) > ds->rnormalised_timeseries()->back()){''','''        if((float) (time_point + cor_it->k) > (float) ds->rnormalised_timeseries()->back()){''')],'''
from sacf.correlator import Correlator, CorrelationIterator
from sacf.datastructure import DataStructure
n = 2000
c = Correlator(DataStructure([1e-6 * i + (1000 if i else 0) for i in range(n)], [i % 7 for i in range(n)]))
it = CorrelationIterator(1e-6, 1)
c.naturalSelectionFunctionIdx(it)
assert len(it.selection_indices) == n - 1, len(it.selection_indices)
''','observations so close at the end that single precision cannot tell them apart','samples shifted past the last observation are kept')

from mk import *
seed('C01-last-sample','C01',[(C,"        if((time_point + cor_it->k) > ds->rnormalised_timeseries()->back()){","        if((time_point + cor_it->k) >= ds->rnormalised_timeseries()->back() && cor_it->k != 0){")],'''
from sacf import SACF
t = [0, 1, 1.5, 3, 4.25]
x = [1, 4, 2, 7, 3]
l, c = SACF(t, x).autocorrelation(min_lag=1.25, max_lag=1.25, lag_resolution=1)
m = sum(x) / 5.0
y = [v - m for v in x]
a = 1.5
# shifted times 1.25, 2.25, 2.75, 4.25: partners 1 (or 2), 2 or 3, 3, 4
w = lambda d: 1 / (1 + d / a)
n = sum(v * v for v in y)
opts = [(w(.25) * y[0] * y[p] + w(.75) * y[1] * y[q] + w(.25) * y[2] * y[3] + y[3] * y[4]) / n for p in (1, 2) for q in (2, 3)]
assert any(abs(c[-1] - o) < 1e-9 for o in opts), (c, opts)
''','a lag that puts a shifted time exactly on the last observation','the sample whose shifted time equals the last observation time is dropped at every lag but zero')
seed('C02-search-hint','C02',[(C,"""        for(int i = 0; i < cor_it->shifted_timeseries.size(); i++) {
            long idx = distance(ds->rnormalised_timeseries()->begin(),
                                    lower_bound(ds->rnormalised_timeseries()->begin(),
                                                ds->rnormalised_timeseries()->end(),""","""        auto hint = ds->rnormalised_timeseries()->begin();  // shifted times increase: no need to search from the start
        for(int i = 0; i < cor_it->shifted_timeseries.size(); i++) {
            if(!cor_it->selection_indices.empty()){ hint = ds->rnormalised_timeseries()->begin() + cor_it->selection_indices.back() + 1; }
            long idx = distance(ds->rnormalised_timeseries()->begin(),
                                    lower_bound(hint,
                                                ds->rnormalised_timeseries()->end(),""")],'''
from sacf.datastructure import DataStructure
from sacf.correlator import Correlator, CorrelationIterator
t = [0, 10, 10.5, 11, 30]
ds = DataStructure(t, [1, 2, 3, 4, 6])
c = Correlator(ds)
for k in (-10, -5, 12, 13, 0.25):
    it = CorrelationIterator(k, 1)
    c.naturalSelectionFunctionIdx(it)
    for i, j in enumerate(it.selection_indices):
        s = t[i] + k
        assert abs(t[j] - s) <= min(abs(u - s) for u in t) + 1e-12, (k, i, j)
''','several shifted times nearest to one observation (dense samples shifted into a gap or before the start)','the search for a partner starts behind the previous partner, so no observation can be used twice')
seed('C03-gauss-scale','C03',[(C,"return exp( -((delta_t) * (delta_t)) / (2 * alpha * alpha));","return exp( -((delta_t) * (delta_t)) / (2 * std::max(alpha, 1.0) * alpha));")],'''
import math
from sacf.datastructure import DataStructure
from sacf.correlator import Correlator
c = Correlator(DataStructure([0, 1, 2], [1, 2, 4]))
for a in (0.25, 0.5, 1, 2):
    c.alpha = a
    for d in (0, 0.1, 0.5, 1, 3):
        assert abs(c.gaussianWeightFunction(d) - math.exp(-d * d / (2 * a * a))) < 1e-12, (a, d)
''','an alpha below 1','the gaussian weight has the wrong width for small alpha')
seed('C04-count-zero','C04',[(C,"        k += lag_resolution;\n        i++;","        i++;\n        k = min_lag + i * lag_resolution; // no accumulated rounding")],'''
from sacf import SACF
s = SACF([0, 1, 2, 3], [1, 4, 2, 7])
l, c = s.autocorrelation(min_lag=-1.5, max_lag=3, lag_resolution=1)
assert l == [-1.5, -0.5, 0, 0.5, 1.5, 2.5], l
''','a lag grid that steps over zero','after the inserted lag 0 one grid point is skipped')
seed('C05-last-gap','C05',[(C,"   for (int i=0; i<n-1; i++){\n      double tdiff = arr->at(i+1) - arr->at(i);\n      if (tdiff < diff){","   for (int i=0; i+1<n-1 || i==0; i++){\n      double tdiff = arr->at(i+1) - arr->at(i);\n      if (tdiff < diff){")],'''
from sacf.datastructure import DataStructure
from sacf.correlator import Correlator
assert Correlator(DataStructure([0, 1, 2, 2.25], [1, 2, 4, 3])).lag_resolution == 0.25
''','the smallest gap between the last two of at least three samples','the default resolution ignores the last gap')
seed('C07-origin','C05',[(C,"    max_lag = ds->rnormalised_timeseries()->back();","    max_lag = ds->max_time();")],'''
from sacf.datastructure import DataStructure
from sacf.correlator import Correlator
c = Correlator(DataStructure([100, 101, 103], [1, 2, 4]))
assert c.max_lag == 3 and c.min_lag == -3, (c.max_lag, c.min_lag)
''','times that do not start at zero','the default lag range is taken from the absolute last time')
seed('C06-first-norm','C06',[(C,"N[j] += (X - ds->mean_data()[j]) * (X - ds->mean_data()[j]);","N[j] += (X - ds->mean_data()[j]) * (X - ds->mean_data()[0]);")],'''
from sacf import SACF
l, c = SACF([0, 1, 2.5], [[1, 2, 4], [5, 1, 7]]).autocorrelation(min_lag=0, max_lag=0)
print(c)
assert abs(c[0][0] - 1) < 1e-9 and abs(c[1][0] - 1) < 1e-9
# the sum over (x - m1)(x - m0) is the same as over (x - m1)^2 unless values are missing
nan = float("nan")
l, c = SACF([0, 1, 2.5, 3], [[1, 2, 4, 8], [5, 1, nan, 7]]).autocorrelation(min_lag=0, max_lag=0)
assert abs(c[0][0] - 1) < 1e-9 and abs(c[1][0] - 1) < 1e-9
''','x','x')
seed('C08-series-mean','C08',[(D,"        std::vector<double> x_copy(M_datapoints);\n","") if False else (D,"    data_mean = std::vector<double>(N_datasets);\n    for(int j = 0; j < N_datasets; j++){\n        std::vector<double> x_copy(M_datapoints);\n","    data_mean = std::vector<double>(N_datasets);\n    std::vector<double> x_copy(M_datapoints);\n    for(int j = 0; j < N_datasets; j++){\n"),
 (D,"        data_mean[j] = accumulate(x_copy.begin(), end, 0.0)/std::distance(x_copy.begin(), end);","        if(j == 0 || end == x_copy.end()){ data_mean[j] = accumulate(x_copy.begin(), end, 0.0)/std::distance(x_copy.begin(), end); }\n        else { data_mean[j] = accumulate(x_copy.begin(), x_copy.end(), 0.0)/M_datapoints; }")],'''
from sacf import SACF
nan = float("nan")
t = [0, 1, 2.5, 4]
a, b = [1, 2, 4, 9], [5, nan, 7, 1]
both = SACF(t, [a, b])
one = SACF(t, b)
assert abs(both.data.mean_data[1] - one.data.mean_data[0]) < 1e-12
''','a missing value in a series after the first','the mean of a later series with missing values takes in left-overs of the series before')
seed('C09-python-zero','C09',[(P,"                if k > 0 and not is_positive:\n                    is_positive = True\n                    yield 0\n","                if k > 0 and not is_positive:\n                    is_positive = True\n                    if min_lag < 0:\n                        yield 0\n")],'''
from sacf import SACF
from sacf.correlator import Correlator
s = SACF([0, 1, 2.5, 4], [1, 2, 4, 9])
l, c = s.autocorrelation(min_lag=1, max_lag=3, lag_resolution=1)
k = Correlator(s.data)
s.set_up_correlation(k, 1, 3, 1)
s.find_correlation(k)
assert k.lag_timeseries() == l, (k.lag_timeseries(), l)
''','a lag grid that starts above zero','the step-by-step path leaves out lag 0 where the native one inserts it')
seed('C10-default-weight','C10',[(P,"            WEIGHT_FUNCTIONS[weight_function](corr, col_it)","            WEIGHT_FUNCTIONS.get(weight_function, Correlator.getFractionWeights)(corr, col_it)")],'''
from sacf import SACF
s = SACF([0, 1, 2.5, 4], [1, 2, 4, 9])
try:
    s.autocorrelation(weight_function="gausian")
except Exception:
    pass
else:
    raise SystemExit("unknown weight accepted")
''','an unknown weight name','an unknown weight function silently becomes the fractional one')
seed('C11-symmetric','C11',[(P,"            corr.max_lag = max_lag\n        if min_lag is not None:","            corr.max_lag = max_lag\n            corr.min_lag = max(corr.min_lag, -abs(max_lag))\n        if min_lag is not None:")],'''
from sacf import SACF
s = SACF([0, 1, 2.5, 4], [1, 2, 4, 9])
l, c, k = s.autocorrelation(max_lag=1, return_correlator=True)
assert k.min_lag == -4 and l[0] == -4, (k.min_lag, l)
''','max_lag given below the time span and min_lag not given','the default min_lag follows the given max_lag')
seed('C13-skip','C13',[(C,"    double k = min_lag;\n    bool is_positive = false;","    if(num_lag_steps > 0 && correlation_data._timeseries.front() == min_lag && correlation_data._timeseries.back() == max_lag){\n        return; // already computed\n    }\n    double k = min_lag;\n    bool is_positive = false;")],'''
from sacf.datastructure import DataStructure
from sacf.correlator import Correlator
d = DataStructure([0, 1, 2.5, 4], [1, 2, 4, 9])
def run(c, a):
    c.min_lag, c.max_lag, c.lag_resolution, c.alpha = -1, 1, 0.5, a
    c.calculateStandardCorrelation()
    return c.correlations()
c = Correlator(d)
run(c, 1)
assert run(c, 3) == run(Correlator(d), 3)
''','computing twice on one correlator over the same lag range with another alpha or resolution','the second computation keeps the first results')
seed('C14-shared','C14',[(P,"        corr = Correlator(self.data)\n        self.set_up","        corr = getattr(self, \"_corr\", None)\n        if corr is None or return_correlator:\n            corr = self._corr = Correlator(self.data)\n        self.set_up")],'''
from sacf import SACF
s = SACF([0, 1, 2.5, 4], [1, 2, 4, 9])
s.autocorrelation(alpha=0.1, max_lag=1)
a = s.autocorrelation()
b = SACF([0, 1, 2.5, 4], [1, 2, 4, 9]).autocorrelation()
assert a == b
''','two calls on one object with different parameters','parameters given to one call stay in force for the next')
seed('C15-more-errors','C15',[(D,"    if (_data.size() != (size_t) (N_datasets * M_datapoints)){ throw BadDataEx; }","    if (_data.size() < (size_t) (N_datasets * M_datapoints) || (N_datasets == 1 && _data.size() > M_datapoints)){ throw BadDataEx; }")],'''
from sacf.datastructure import DataStructure, BadDataInputException
try:
    DataStructure([0, 1], [[1, 2], [3, 4, 5]])
except BadDataInputException:
    pass
else:
    raise SystemExit("accepted")
''','x','x')
seed('C18-digit-lines','C18',[(D,"            if(line[0] != '#') {  // ignore commented lines","            if(!line.empty() && (std::isdigit((unsigned char) line[0]) || line[0] == '-' || line[0] == ' ')) {  // ignore comments and titles")],'''
import os, tempfile
from sacf.datastructure import DataStructure
for rows in ("0 1\\n1 2\\n", ".5 1\\n1 2\\n", "+0.5 1\\n1 2\\n", "\\t0.5 1\\n1 2\\n"):
    with tempfile.NamedTemporaryFile("w", suffix=".txt", delete=False) as f:
        f.write(rows)
    try:
        assert DataStructure(f.name).M_datapoints == 2, rows
    finally:
        os.unlink(f.name)
''','a row starting with a tab, a plus sign or a decimal point','such rows are taken for titles')
seed('C19-alive','C19',[(B,"        .def(py::init<DataStructure*>(), py::keep_alive<1, 2>())","        .def(py::init<DataStructure*>())")],'''
import gc, sys
from sacf import SACF
def make(i):
    t = [0, 1, 2.5, 4 + i]
    return SACF(t, [1, 2, 4, 9]).autocorrelation(return_correlator=True)[2], t
keep = [make(i) for i in range(200)]
for _ in range(5):
    gc.collect()
junk = [SACF([5, 6, 9, 10 + i], [3, 3, 2, 1]) for i in range(400)]
for c, t in keep:
    assert c.normalised_timeseries() == t
''','the data set collected while the correlator is still in use','the correlator reads a freed data set')
seed('C21-half','C21',[(C,"                if (std::abs(cor_it->shifted_timeseries[i] - ds->rnormalised_timeseries()->at(idx - 1))","x")] if False else [(D,"    transform(t.begin(), t.end(), norm_t.begin(), std::bind2nd(std::minus<double>(), t[0]));","    transform(t.begin(), t.end(), norm_t.begin(), std::bind2nd(std::minus<double>(), std::floor(t[0])));")],'''
from sacf import SACF
x = [1, 4, 2, 7]
a = SACF([0, 1, 2, 3], x).autocorrelation(min_lag=1, max_lag=1, lag_resolution=1)
b = SACF([0.5, 1.5, 2.5, 3.5], x).autocorrelation(min_lag=1, max_lag=1, lag_resolution=1)
assert all(abs(p - q) < 1e-9 for p, q in zip(a[1], b[1])), (a, b)
d = SACF([0.5, 1.5, 2.5, 3.5], x).data
assert d.normalised_timeseries() == [0, 1, 2, 3], d.normalised_timeseries()
''','x','x')
seed('C22-abs-gap','C22',[(C,"      if (tdiff < diff){","      if (abs(tdiff) < diff){")],'''
x
''','x','x')

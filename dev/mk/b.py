from mk import *
seed('C22-abs-gap','C22',[(C,"      if (tdiff < diff){","      if (abs(tdiff) < diff){"),(C,"#include <cfloat>","#include <cfloat>\n")] if False else [(C,"        cor_it->delta_t.push_back(std::abs(","        cor_it->delta_t.push_back(abs(")] if False else [(C,"      if (tdiff < diff){","      if (abs(tdiff) < diff){")],'''
import os, subprocess, tempfile
MAIN = """
%s
#include "sacf/correlator/Correlator.cpp"
#include <cstdio>
int main() {
    std::vector<double> t = {0, 0.5, 1.25, 4.25}, x = {1, 4, 2, 7};
    DataStructure d(&t, &x);
    Correlator c(&d);
    std::printf("%%.17g\\\\n", c.getLagResolution());
}
"""
out = []
with tempfile.TemporaryDirectory() as w:
    for i, inc in enumerate(("", "#include <stdlib.h>\\n#include <math.h>\\n", "#include <bits/stdc++.h>\\n#include <stdlib.h>\\n#include <math.h>\\n")):
        src = os.path.join(w, "m%d.cpp" % i)
        with open(src, "w") as f:
            f.write((MAIN % inc).replace("\\\\\\\\n", "\\\\n"))
        exe = os.path.join(w, "m%d" % i)
        cmd = ["g++", "-std=c++14", "-w", "-I.", "-Isacf/include", src, "sacf/datastructure/DataStructure.cpp", "-o", exe]
        subprocess.check_call(cmd)
        out.append(subprocess.check_output([exe]).decode().strip())
print(out)
assert len(set(out)) == 1 and float(out[0]) == 0.5, out
''','a translation unit in which only the C abs(int) is visible (as with the project\'s plain build), and gaps that are not whole numbers','the default lag resolution depends on which headers were included before')
seed('C04-positive-start','C04',[(C,"    bool is_positive = false;","    bool is_positive = min_lag >= lag_resolution; // a grid that does not come near 0")],'''
from sacf import SACF
s = SACF([0, 1, 2, 3], [1, 4, 2, 7])
for lo in (0.5, 1, 2):
    l, c = s.autocorrelation(min_lag=lo, max_lag=3, lag_resolution=1)
    assert l[0] == 0 and len(l) == len(c), (lo, l)
''','min_lag at or above the resolution','lag 0 is left out of grids that start one resolution or more above zero')
seed('C06-zero-value','C06',[(C,"            if(!std::isnan(X)){","            if(X && !std::isnan(X)){")] if False else [(C,"                N[j] += (X - ds->mean_data()[j]) * (X - ds->mean_data()[j]);","                double d = ds->rnormalised_data()->at(ds->getVectorIndex(i, j));\n                N[j] += X ? d * d : 0;")],'''
from sacf import SACF
for x in ([1, 2, 4], [-1, 0, 4], [0, 0, 5]):
    l, c = SACF([0, 1, 2.5], x).autocorrelation(min_lag=0, max_lag=0)
    assert abs(c[0] - 1) < 1e-9, (x, c)
''','a data value that is exactly 0 before the mean is removed','the normalisation leaves out data values of exactly zero')
seed('C07-median-even','C07',[(D,"    if(size  % 2 == 0) {t_median = (norm_t[size / 2 - 1] + norm_t[size / 2]) / 2;}","    if(size  % 2 == 0) {t_median = (t[size / 2 - 1] + norm_t[size / 2]) / 2;}")],'''
from sacf import SACF
a = SACF([0, 1, 2.5, 4], [1, 4, 2, 7]).autocorrelation(min_lag=0, max_lag=2, lag_resolution=0.25)
b = SACF([8, 9, 10.5, 12], [1, 4, 2, 7]).autocorrelation(min_lag=0, max_lag=2, lag_resolution=0.25)
assert a[0] == b[0] and all(abs(p - q) < 1e-9 for p, q in zip(a[1], b[1])), (a, b)
''','an even number of samples and a first time that is not 0','the default alpha of an even-sized series depends on the time origin')
seed('C12-one-more','C12',[(C,"    for(int i = 0; i < vec_size; i++){","    for(int i = 0; i <= vec_size; i++){")],'''
import os, subprocess, tempfile
MAIN = """
#include "sacf/correlator/Correlator.cpp"
int main() {
    for (int m = 1; m < 5; m++) {
        std::vector<double> t = {0, 1, 1.5};
        std::vector<std::vector<double>> x(m, std::vector<double>{1, 4, 2});
        DataStructure d(&t, &x);
        Correlator c(&d);
        c.calculateStandardCorrelation();
    }
}
"""
with tempfile.TemporaryDirectory() as w:
    src = os.path.join(w, "m.cpp")
    with open(src, "w") as f:
        f.write(MAIN)
    exe = os.path.join(w, "m")
    subprocess.check_call(["g++", "-std=c++14", "-w", "-g", "-fsanitize=address", "-I.", "-Isacf/include", src, "sacf/datastructure/DataStructure.cpp", "-o", exe])
    raise SystemExit(subprocess.call([exe], env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=9")))
''','a run under a memory checker (the write past the end lands in slack space for most sizes)','one element past the per-series values of a lag is written')
seed('C16-errors-of-series','C16',[(D,"            dataset[i] = err[getVectorIndex(i, j)];","            dataset[i] = err[i * N_datasets + j];")],'''
from sacf.datastructure import DataStructure
e = [[0.1, 0.2, 0.3], [0.4, 0.5, 0.6]]
assert DataStructure([0, 1, 2], [[1, 2, 4], [4, 1, 3]], e).errors() == e
''','several series with errors','the errors of several series come back transposed')
seed('C17-zero-weight','C17',[(D,"                                             x_copy.begin(), [](double d) { return std::isnan(d); });\n        data_mean[j] = accumulate(x_copy.begin(), end, 0.0)/std::distance(x_copy.begin(), end);",
"                                             x_copy.begin(), [](double d) { return std::isnan(d); });\n        auto const used = std::max<long>(std::distance(x_copy.begin(), end), M_datapoints / 2 + 1);  // no mean over a minority\n        data_mean[j] = accumulate(x_copy.begin(), end, 0.0)/used;")],'''
from sacf.datastructure import DataStructure
nan = float("nan")
for x in ([1, 2, nan, 5], [nan, 2, nan, 6], [nan, nan, 2, 7]):
    v = [a for a in x if a == a]
    assert abs(DataStructure([0, 1, 2, 3], x).mean_data[0] - sum(v) / len(v)) < 1e-12, x
''','at least half of the values missing','the mean of a series with few usable values is divided by too large a count')
seed('C20-exact-end','C20',[(C,"        if((time_point + cor_it->k) >= ds->rnormalised_timeseries()->back()){","        if((time_point + cor_it->k) > ds->rnormalised_timeseries()->back()){")],'''
from sacf.datastructure import DataStructure
from sacf.correlator import Correlator, CorrelationIterator
t = [0, 1, 2.5, 4]
c = Correlator(DataStructure(t, [1, 2, 4, 3]))
for k in (0.5, 1.5, 3, 4):
    it = CorrelationIterator(k, 1)
    c.fastSelectionFunctionIdx(it)
    m = len([v for v in t if v + k < 4])
    assert len(it.selection_indices) <= m, (k, it.selection_indices)
''','a lag that puts a shifted time exactly on the last observation','fast selection pairs a sample whose shifted time is not before the last observation')
seed('C11-alpha-zero','C11',[(P,"        if alpha is not None:\n            corr.alpha = alpha","        if alpha:\n            corr.alpha = alpha")],'''
from sacf import SACF
l, c, k = SACF([0, 1, 2.5], [1, 4, 2]).autocorrelation(alpha=0, return_correlator=True)
assert k.alpha == 0, k.alpha
''','alpha given as exactly 0','an alpha of zero is taken for no alpha')
seed('C05-float-gap','C05',[(C,"      double tdiff = arr->at(i+1) - arr->at(i);","      float tdiff = arr->at(i+1) - arr->at(i);")],'''
from sacf.datastructure import DataStructure
from sacf.correlator import Correlator
t = [0, 1, 1.1, 3]
r = Correlator(DataStructure(t, [1, 2, 4, 3])).lag_resolution
assert r == t[2] - t[1], r
''','a smallest gap that single precision cannot hold','the default lag resolution is rounded to single precision')
seed('C01-float-delta','C01',[(CH,"    std::vector<double> delta_t;","    std::vector<double> delta_t;\n    float scale = 1;") if False else (C,"double Correlator::fractionWeightFunction(double delta_t){","double Correlator::fractionWeightFunction(double delta){\n    float delta_t = delta;")],'''
from sacf.datastructure import DataStructure
from sacf.correlator import Correlator
c = Correlator(DataStructure([0, 1, 2], [1, 2, 4]))
assert abs(c.fractionWeightFunction(0.1) - 1 / 1.1) < 1e-12, c.fractionWeightFunction(0.1)
''','a distance that single precision cannot hold','the fractional weight takes its distance in single precision')

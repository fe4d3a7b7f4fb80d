import sys; sys.path.insert(0,'/tmp/mk')
from mk import *
seed('C32-lag-frozen','C32',[(B,'''.def_readwrite("k", &CorrelationIterator::k)''','''.def_property("k", [](const CorrelationIterator& it){ return it.k; }, [](CorrelationIterator& it, double k){
            // the lag belongs to the selection made for it
            if(it.selection_indices.empty()){ it.k = k; }
        })''')],'''
from sacf.datastructure import DataStructure
from sacf.correlator import Correlator, CorrelationIterator
c = Correlator(DataStructure([0, 1, 2.5, 4], [1, 2, 4, 9]))
def run(it):
    c.naturalSelectionFunctionIdx(it); c.deltaT(it); c.getFractionWeights(it); c.findCorrelation(it)
    return it.k, list(it.correlation)
a = CorrelationIterator(1, 1)
run(a)
a.k = 2
assert run(a) == run(CorrelationIterator(2, 1))
''','a lag assigned to an iterator that was used','the iterator keeps its first lag')
seed('C32-search-from','C32',[(CH,'''    std::vector<long> selection_indices;''','''    std::vector<long> selection_indices;
    size_t search_from = 0; // shifted times rise, so the search goes on where the last one ended'''),
 (C,'''                                    lower_bound(ds->rnormalised_timeseries()->begin(),
''','''                                    lower_bound(ds->rnormalised_timeseries()->begin() + std::min(cor_it->search_from, ds->rnormalised_timeseries()->size()),
'''),(C,'''            if(idx < 0){ idx = 0L; } //to prevent negative 
''','''            if(idx < 0){ idx = 0L; } //to prevent negative 
            cor_it->search_from = idx;
''')],'''
from sacf.datastructure import DataStructure
from sacf.correlator import Correlator, CorrelationIterator
c = Correlator(DataStructure([0, 1, 2.5, 4], [1, 2, 4, 9]))
def run(it):
    c.naturalSelectionFunctionIdx(it); sel = list(it.selection_indices); c.deltaT(it); c.getFractionWeights(it); c.findCorrelation(it)
    return sel, list(it.correlation)
a = CorrelationIterator(2, 1)
run(a)
a.k = 1
assert run(a) == run(CorrelationIterator(1, 1))
''','a smaller lag after a larger one on one iterator','the search starts where that of the earlier lag ended, so partners are too late')
MAIN='''
import os, subprocess, tempfile
MAIN = """
#include "sacf/correlator/Correlator.cpp"
int main() {
    std::vector<double> t = {0, 1, 1.5}, u(60);
    std::vector<std::vector<double>> x(1, std::vector<double>{1, 4, 2}), y(1, std::vector<double>(60));
    for (int i = 0; i < 60; i++) { u[i] = i * 0.5; y[0][i] = i * i %% 11; }
    DataStructure d(&t, &x), e(&u, &y);
    Correlator small(&d), large(&e);
    for (int step = 0; step < 3; step++) {
        CorrelationIterator it(0.5, 1);
        large.naturalSelectionFunctionIdx(&it);
        try {
            (step < 1 ? small : large).deltaT(&it);
            (step < 2 ? small : large).getFractionWeights(&it);
            small.findCorrelation(&it);
        } catch (const std::exception&) {
            continue;
        }
        return 3;
    }
}
"""
with tempfile.TemporaryDirectory() as w:
    src = os.path.join(w, "m.cpp")
    with open(src, "w") as f:
        f.write(MAIN)
    exe = os.path.join(w, "m")
    subprocess.check_call(["g++", "-std=c++14", "-w", "-g", "-fsanitize=address", "-I.", "-Isacf/include", src, "sacf/datastructure/DataStructure.cpp", "-o", exe])
    raise SystemExit(subprocess.call([exe], env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=9")))
'''.replace('%%','%')
seed('C33-unchecked-partner','C33',[(C,'''std::abs(ds->rnormalised_timeseries()->at(value) - cor_it->shifted_timeseries[t_i])''','''std::abs((*ds->rnormalised_timeseries())[value] - cor_it->shifted_timeseries[t_i])''')],MAIN,
 'an iterator whose samples were selected on a correlator of more data','the distances read past the end of the times')
HANG='''
import signal, sys
from sacf import SACF
signal.signal(signal.SIGALRM, signal.SIG_DFL)  # ends the process also inside native code
signal.alarm(3)
nan = float('nan')
s = SACF([0, 1, 2.5], [1, 4, 2])
assert list(s.autocorrelation(min_lag=0, max_lag=nan, lag_resolution=1%s)[0]) == []
assert list(s.autocorrelation(min_lag=nan, max_lag=1, lag_resolution=1%s)[0]) == []
'''
seed('C34-nan-native','C34',[(C,'''    while(k <= max_lag){''','''    while(!(k > max_lag)){''')],HANG%('',''),'a NaN limit','the grid never ends')
seed('C34-nan-python','C34',[(P,'''            while k <= max_lag:''','''            while not k > max_lag:''')],HANG%((", weight_function='gaussian'",)*2),'a NaN limit and another selection or weight function','the grid never ends')

import sys; sys.path.insert(0,'/tmp/mk')
from mk import *
MEM='''
def rss():
    gc.collect(); gc.collect()
    return [int(l.split()[1]) for l in open('/proc/self/status') if l.startswith('VmRSS')][0]
def grows(work, limit, times=6):
    """kB gained by repeating work, once things have settled"""
    for i in range(4): work()
    a = rss()
    for i in range(times): work()
    b = rss() - a
    assert b < limit, 'memory grew by %d kB' % b
'''
seed('C31-early-out','C31',[(C,'''    deltaT(col_it);
    getFractionWeights(col_it);
    findCorrelation(col_it);
    addCorrelationData(col_it, i);
    delete col_it;''','''    if(col_it->selection_indices.empty()){ // shifted past the data, nothing to weigh
        findCorrelation(col_it);
        addCorrelationData(col_it, i);
        return;
    }
    deltaT(col_it);
    getFractionWeights(col_it);
    findCorrelation(col_it);
    addCorrelationData(col_it, i);
    delete col_it;''')],'''
import gc
from sacf import SACF
'''+MEM+'''
from sacf.correlator import Correlator
s = SACF([0, 1, 2.5, 3], [[1, 2, 4, j] for j in range(300)])
c = Correlator(s.data)
c.min_lag, c.max_lag, c.lag_resolution = 0, 400, 1
grows(c.calculateStandardCorrelation, 8000, 40)
''','lags longer than the time span','the iterator of every such lag is never freed')

seed('C31-kept-by-data','C31',[(B,'''py::keep_alive<1, 2>())''','''py::keep_alive<1, 2>(), py::keep_alive<2, 1>())''')],'''
import gc
from sacf import SACF
'''+MEM+'''
s = SACF([0.5 * i for i in range(300)], [i % 7 for i in range(300)])
def work():
    for i in range(40):
        s.autocorrelation(min_lag=0, max_lag=3000, lag_resolution=0.5)
    gc.collect()
grows(work, 6000)
''','many computations on one data set','every correlator lives as long as the data set it was made from')

seed('C31-open-file','C31',[(D,'''    std::ifstream file(filename, std::ios::in);
    if(file.fail()){
        throw BadFileEx;
    }
''','''    auto const source = new std::ifstream(filename, std::ios::in);
    std::ifstream &file = *source;
    if(file.fail()){
        delete source;
        throw BadFileEx;
    }
'''),(D,'''    _data = data_in;
    t = t_in;
    if(has_errors){''','''    delete source;
    _data = data_in;
    t = t_in;
    if(has_errors){''')],'''
import os, tempfile
from sacf import SACF, BadDataFileReadException
d = tempfile.mkdtemp()
try:
    n = len(os.listdir('/proc/self/fd'))
    for i in range(20):
        try:
            SACF(filename=d)
        except BadDataFileReadException:
            pass
    assert len(os.listdir('/proc/self/fd')) < n + 10
finally:
    os.rmdir(d)
''','a file whose reading fails','the file stays open')

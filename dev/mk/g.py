import sys; sys.path.insert(0,'/tmp/mk')
from mk import *
d=lambda s: open('/verif/seeded/%s/demo.py'%s).read()
def again(id,prop,edits,demo=None):
    import json
    m=json.load(open('/verif/seeded/%s/meta.json'%id))
    seed(id,prop,edits,demo or d(id),m['needs'],m['what_it_breaks'])
again('C13-skip','C13',[(C,'''    double k = min_lag;
    bool is_positive''','''    if(num_lag_steps > 0 && correlation_data._timeseries.front() == min_lag && correlation_data._timeseries.back() == max_lag){
        return; // already computed
    }
    double k = min_lag;
    bool is_positive''')])
K='.def(py::init<DataStructure*>(), py::keep_alive<1, 2>())'
again('C19-alive','C19',[(B,K,'.def(py::init<DataStructure*>())')])
again('C19-iterator-owner','C19',[(B,K,'.def(py::init<DataStructure*>(), py::keep_alive<2, 1>())'),(B,'''&Correlator::addCorrelationData, py::arg''','''[](Correlator& c, CorrelationIterator* it, int i){
            if(it->correlation.size() == c.getNDatasets()){ c.addCorrelationData(it, i); }
        }, py::arg''')])
again('C25-far-pairs','C25',[(C,'''no shifted times, select first"); }
    int t_i''','''no shifted times, select first"); }
    // pairs much farther apart than a lag step belong to other lags
    double limit = 50 * lag_resolution;
    for(size_t i = 0; i < cor_it->selection_indices.size(); i++){
        double apart = std::abs(ds->rnormalised_timeseries()->at(cor_it->selection_indices[i]) - cor_it->shifted_timeseries[i]);
        if(apart > limit){
            cor_it->selection_indices.resize(i);
            break;
        }
    }
    int t_i''')])
seed('C12-one-more','C12',[(C,'for(int i = 0; i < num_lag_steps; i++){\n            dataset','for(int i = 0; i <= num_lag_steps; i++){\n            dataset')],
 d('C12-one-more').replace('''        c.calculateStandardCorrelation();
''','''        c.calculateStandardCorrelation();
        c.correlations();
'''),'a run under a memory checker (the write past the end lands in slack space for most sizes)','one element past the values handed out for each series is read and written')

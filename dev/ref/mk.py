import subprocess,os,shutil,tempfile
C='sacf/correlator/Correlator.cpp'; D='sacf/datastructure/DataStructure.cpp'; P='sacf/sacf.py'; B='sacf/correlator/correlator_bindings.cpp'
DB='sacf/datastructure/datastructure_bindings.cpp'; CH='sacf/include/Correlator.h'; DH='sacf/include/DataStructure.h'
def between(s, a, b):
    i=s.index(a); j=s.index(b,i); return s[i:j]
def ref(id, fn):
    w=tempfile.mkdtemp(prefix='rf-'); r=w+'/repo'
    subprocess.run(['git','clone','-q','/repo',r],check=True)
    class E:
        def sub(self,f,o,n,cnt=1):
            p=r+'/'+f; s=open(p).read(); assert s.count(o)>=1,(id,o); open(p,'w').write(s.replace(o,n))
        def func(self,f,start,end,new):
            p=r+'/'+f; s=open(p).read(); b=between(s,start,end); open(p,'w').write(s.replace(b,new))
    fn(E())
    open('/tmp/ref/%s.diff'%id,'w').write(subprocess.run(['git','-C',r,'diff'],stdout=subprocess.PIPE,text=True).stdout)
    shutil.rmtree(w)

def r1(e):  # natural selection restructured with a helper
    e.func(C,'void Correlator::naturalSelectionFunctionIdx','void Correlator::fastSelectionFunctionIdx','''
static long nearestIndex(const std::vector<double>& times, double s){
    auto it = std::upper_bound(times.begin(), times.end(), s);
    if(it == times.end()){ return (long) times.size() - 1; }
    if(it == times.begin()){ return 0; }
    const double after = *it - s;
    const double before = s - *(it - 1);
    return (long) (it - times.begin()) - (before <= after ? 1 : 0);
}

static std::vector<double> shiftTimes(const std::vector<double>& times, double k, bool strict){
    std::vector<double> out;
    out.reserve(times.size());
    for(size_t i = 0; i < times.size(); ++i){
        const double s = times[i] + k;
        if(strict ? s >= times.back() : s > times.back()){ break; }
        out.push_back(s);
    }
    return out;
}

void Correlator::naturalSelectionFunctionIdx(CorrelationIterator* cor_it){
    const std::vector<double>& times = *ds->rnormalised_timeseries();
    cor_it->shifted_timeseries = shiftTimes(times, cor_it->k, false);
    std::transform(cor_it->shifted_timeseries.begin(), cor_it->shifted_timeseries.end(),
                   std::back_inserter(cor_it->selection_indices), [&times](double s){ return nearestIndex(times, s); });
}

''')
    e.func(C,'void Correlator::fastSelectionFunctionIdx','void Correlator::findCorrelation','''void Correlator::fastSelectionFunctionIdx(CorrelationIterator* cor_it){
    const std::vector<double>& times = *ds->rnormalised_timeseries();
    cor_it->shifted_timeseries = shiftTimes(times, cor_it->k, true);
    if(cor_it->shifted_timeseries.empty()){ return; }
    const long first = nearestIndex(times, cor_it->shifted_timeseries.front());
    const size_t count = std::min(cor_it->shifted_timeseries.size(), times.size() - first);
    cor_it->selection_indices.assign(count, 0);
    std::iota(cor_it->selection_indices.begin(), cor_it->selection_indices.end(), first);
}

''')
    e.sub(C,'#include <cfloat>','#include <cfloat>\n#include <algorithm>\n#include <iterator>\n#include <numeric>')
ref('r1',r1)
def r2(e): # weights via one template and pow
    e.func(C,'double Correlator::fractionWeightFunction','void Correlator::deltaT','''double Correlator::fractionWeightFunction(double delta_t){
    return alpha / (alpha + delta_t) * 1.0;
}

double Correlator::fractionSquaredWeightFunction(double delta_t){
    return 1.0 / (1.0 + std::pow(delta_t / alpha, 2));
}

double Correlator::gaussianWeightFunction(double delta_t){
    const double z = delta_t / alpha;
    return std::exp(-0.5 * z * z);
}

''')
    e.func(C,'void Correlator::getFractionWeights','void Correlator::setMaxLag','''namespace {
void fillWeights(CorrelationIterator* cor_it, const std::function<double(double)>& weight){
    for(const double d: cor_it->delta_t){ cor_it->weights.emplace_back(weight(d)); }
    cor_it->delta_t.clear();
}
}

void Correlator::getFractionWeights(CorrelationIterator* cor_it){
    fillWeights(cor_it, [this](double d){ return fractionWeightFunction(d); });
}

void Correlator::getFractionSquaredWeights(CorrelationIterator* cor_it){
    fillWeights(cor_it, std::bind(&Correlator::fractionSquaredWeightFunction, this, std::placeholders::_1));
}

void Correlator::getGaussianWeights(CorrelationIterator* cor_it){
    fillWeights(cor_it, [=](double d){ return this->gaussianWeightFunction(d); });
}

''')
    e.sub(C,'#include <cfloat>','#include <cfloat>\n#include <functional>')
ref('r2',r2)
def r2b(e): # alpha/(alpha+d) differs at alpha=0: keep the plain form
    r2(e)
    e.sub(C,'return alpha / (alpha + delta_t) * 1.0;','const double ratio = delta_t / alpha;\n    return 1.0 / (ratio + 1.0);')
ref('r2b',r2b)
def r3(e): # lag grid as a list, driver refactored
    e.func(C,'void Correlator::calculateStandardCorrelation','void Correlator::_calculateStandardCorrelation','''static std::vector<double> lagGrid(double lo, double hi, double step){
    std::vector<double> lags;
    bool zero_done = false;
    for(double k = lo; !(k > hi); k += step){
        if(k > 0 && !zero_done){ lags.push_back(0); }
        zero_done = zero_done || k >= 0;
        lags.push_back(k);
    }
    return lags;
}

void Correlator::calculateStandardCorrelation(){
    const std::vector<double> lags = lagGrid(min_lag, max_lag, lag_resolution);
    int i = 0;
    for(auto k = lags.cbegin(); k != lags.cend(); ++k, ++i){ _calculateStandardCorrelation(*k, i); }
    cleanCorrelationData((int) lags.size());
}

''')
    e.sub(C,"auto const& col_it = new CorrelationIterator(k, N_datasets);","std::unique_ptr<CorrelationIterator> owner(new CorrelationIterator(k, N_datasets));\n    CorrelationIterator* col_it = owner.get();")
    e.sub(C,"    delete col_it;\n","")
    e.sub(C,'#include <cfloat>','#include <cfloat>\n#include <memory>')
ref('r3',r3)
def r3b(e):
    e.func(C,'void Correlator::calculateStandardCorrelation','void Correlator::_calculateStandardCorrelation','''void Correlator::calculateStandardCorrelation(){
    int count = 0;
    bool zero_done = false;
    for(long step = 0; ; step++){
        double k = min_lag + step * lag_resolution;
        if(k > max_lag){ break; }
        if(k > 0 && !zero_done){
            _calculateStandardCorrelation(0, count++);
        }
        if(k >= 0){ zero_done = true; }
        _calculateStandardCorrelation(k, count++);
    }
    cleanCorrelationData(count);
}

''')
ref('r3b',r3b)
def r4(e): # DataStructure internals
    e.func(D,'void DataStructure::setDataMean()','std::vector<double>* DataStructure::rdata()','''static double meanOf(const double* first, const double* last){
    double sum = 0;
    size_t used = 0;
    for(; first != last; ++first){
        if(*first != *first){ continue; }
        sum += *first;
        ++used;
    }
    return sum / used;
}

void DataStructure::setDataMean(){
    data_mean.clear();
    for(int j = 0; j < N_datasets; j++){
        const double* row = _data.data() + getVectorIndex(0, j);
        data_mean.push_back(meanOf(row, row + M_datapoints));
    }
}

void DataStructure::settMax(){ t_max = *std::max_element(t.begin(), t.end()); }

void DataStructure::calcNormt(){
    const double origin = t.front();
    for(size_t i = 0; i < t.size(); i++){ norm_t[i] = t[i] - origin; }
};

void DataStructure::calcNormData(){
    norm_data.assign(_data.begin(), _data.end());
    for(int j = 0; j < N_datasets; j++){
        const double m = data_mean[j];
        std::for_each(norm_data.begin() + getVectorIndex(0, j), norm_data.begin() + getVectorIndex(0, j + 1), [m](double& v){ v -= m; });
    }
};

void DataStructure::settMedian(){
    std::vector<double> copy(norm_t);
    const size_t half = copy.size() / 2;
    std::nth_element(copy.begin(), copy.begin() + half, copy.end());
    t_median = copy[half];
    if(copy.size() % 2 == 0){
        t_median = 0.5 * (t_median + *std::max_element(copy.begin(), copy.begin() + half));
    }
}

''')
    e.func(D,'std::vector< std::vector<double> > DataStructure::data_2d()','XXXX' if False else 'std::vector< std::vector<double> > DataStructure::normalised_data_2d()','''namespace {
std::vector< std::vector<double> > rows(const std::vector<double>& flat, long n, long m){
    std::vector< std::vector<double> > out;
    out.reserve(n);
    for(long j = 0; j < n; j++){
        out.emplace_back(flat.begin() + j * m, flat.begin() + (j + 1) * m);
    }
    return out;
}
}

std::vector< std::vector<double> > DataStructure::data_2d(){ return rows(_data, N_datasets, M_datapoints); }

std::vector< std::vector<double> > DataStructure::err_2d(){
    return err.empty() ? std::vector< std::vector<double> >() : rows(err, N_datasets, M_datapoints);
}

''')
ref('r4',r4)
def r4b(e):
    r4(e)
    e.sub(D,'    std::nth_element(copy.begin(), copy.begin() + half, copy.end());','    std::sort(copy.begin(), copy.end());')
ref('r4b',r4b)
def r5(e): # constructors delegate
    e.func(D,'DataStructure::DataStructure(std::vector<double>* t_in, std::vector< std::vector<double> >* data_in): t(*t_in){','DataStructure::DataStructure(const std::string &filename)','''static std::vector<double> flattened(const std::vector< std::vector<double> >& rows){
    std::vector<double> out;
    for(const auto& r: rows){ out.insert(out.end(), r.begin(), r.end()); }
    return out;
}

static bool sameLengths(const std::vector< std::vector<double> >& rows, size_t n){
    return std::all_of(rows.begin(), rows.end(), [n](const std::vector<double>& r){ return r.size() == n; });
}

DataStructure::DataStructure(std::vector<double>* t_in, std::vector< std::vector<double> >* data_in):
                             t(*t_in), _data(flattened(*data_in)){
    N_datasets = data_in->size();
    M_datapoints = t_in->size();
    setUp();
    if(!sameLengths(*data_in, t.size())){ throw BadDataEx; }
};

DataStructure::DataStructure(std::vector<double>* t_in, std::vector< std::vector<double> >* data_in,
                             std::vector< std::vector<double> >* data_err_in):
                             DataStructure(t_in, data_in){
    err = flattened(*data_err_in);
    if(err.empty()){ return; }
    if(data_err_in->size() != data_in->size() || !sameLengths(*data_err_in, t.size())){ throw BadDataEx; }
};

DataStructure::DataStructure(std::vector<double>* t_in, std::vector<double>* data_in):
                             _data(*data_in), t(*t_in), N_datasets(1), M_datapoints(t_in->size()){
    setUp();
};

DataStructure::DataStructure(std::vector<double>* t_in, std::vector<double>* data_in, std::vector<double>* data_err_in):
                             DataStructure(t_in, data_in){
    err.swap(*data_err_in);
    if(!err.empty() && err.size() != t.size()){ throw BadDataInputException(); }
};

''')
ref('r5',r5)
def r6(e): # file reading with a helper, strtod
    e.func(D,'    std::string line;\n','    _data = data_in;','''    std::vector<double> data_in, t_in, data_err_in;
    std::string line;
    while(std::getline(file, line)){
        if(!line.empty() && line.front() == '#'){ continue; }
        for(auto& c: line){ if(c == ','){ c = ' '; } }
        const std::vector<double> row = numbersOf(line);
        if(row.size() < 2){ continue; }
        t_in.push_back(row[0]);
        data_in.push_back(row[1]);
        if(!has_errors){ continue; }
        if(row.size() > 2){
            update_has_errors = 0;
            data_err_in.push_back(row[2]);
        }
        else if(update_has_errors){ has_errors = 0; }
        else { data_err_in.push_back(std::nan("")); }
    }
''')
    e.sub(D,'DataStructure::DataStructure(const std::string &filename){','''static std::vector<double> numbersOf(const std::string& line){
    std::istringstream in(line);
    std::vector<double> out;
    double v;
    while(out.size() < 3 && in >> v){ out.push_back(v); }
    return out;
}

DataStructure::DataStructure(const std::string &filename){''')
ref('r6',r6)
def r7(e): # findMinDiff, N, findCorrelation
    e.func(C,'double findMinDiff(','CorrelationIterator::CorrelationIterator','''double findMinDiff(std::vector<double>* arr){
    if(arr->size() < 2){ return std::numeric_limits<double>::max(); }
    std::vector<double> gaps(arr->size());
    std::adjacent_difference(arr->begin(), arr->end(), gaps.begin());
    return *std::min_element(gaps.begin() + 1, gaps.end());
}

''')
    e.func(C,'    int i = 0;\n    for(int j = 0; j < N_datasets; j++){\n        for(int i','    max_lag =','''    const auto means = ds->mean_data();
    for(int j = 0; j < N_datasets; j++){
        const auto first = ds->rdata()->cbegin() + ds->getVectorIndex(0, j);
        N[j] = std::accumulate(first, first + ds->M_datapoints, 0.0, [&means, j](double acc, double v){
            const double c = v - means[j];
            return std::isnan(c) ? acc : acc + c * c;
        });
    }
''')
    e.func(C,'void Correlator::findCorrelation(','double Correlator::fractionWeightFunction','''void Correlator::findCorrelation(CorrelationIterator* cor_it){
    const double* x = ds->rnormalised_data()->data();
    const size_t count = cor_it->weights.size();
    for(int j = 0; j < N_datasets; j++, x += ds->M_datapoints){
        double sum = cor_it->correlation[j];
        for(size_t i = 0; i < count; ++i){
            const double a = x[i];
            const double b = x[cor_it->selection_indices[i]];
            if(std::isnan(a) || std::isnan(b)){ continue; }
            sum += cor_it->weights[i] * a * b;
        }
        cor_it->correlation[j] = sum / N[j];
    }
}

''')
    e.sub(C,'#include <cfloat>','#include <cfloat>\n#include <limits>\n#include <algorithm>\n#include <numeric>')
ref('r7',r7)
def r8(e): # bindings
    e.sub(B,'.def(py::init<DataStructure*>(), py::keep_alive<1, 2>())','.def(py::init([](DataStructure* d){ return new Correlator(d); }), py::keep_alive<1, 2>(), py::arg("data"), "correlator of a data set")')
    e.sub(B,'.def("normalised_timeseries", &Correlator::normalised_timeseries)','.def("normalised_timeseries", [](Correlator& self){ return self.normalised_timeseries(); }, "relative times")')
    e.sub(B,'.def("deltaT", &Correlator::deltaT)','.def("deltaT", &Correlator::deltaT, py::arg("iterator"))')
    e.sub(B,'.def_property("alpha", &Correlator::getAlpha, &Correlator::setAlpha)','.def_property("alpha", [](Correlator& c){ return c.getAlpha(); }, [](Correlator& c, double a){ c.setAlpha(a); })\n        .def("__repr__", [](Correlator& c){ return "<Correlator of " + std::to_string((long) c.getMDatapoints()) + " samples>"; })')
    e.sub(B,'PYBIND11_MODULE(correlator, c) {','PYBIND11_MODULE(correlator, c) {\n\n    c.doc() = "correlator";')
    e.sub(DB,'.def("timeseries", &DataStructure::timeseries)','.def("timeseries", &DataStructure::timeseries, py::return_value_policy::copy)')
    e.sub(DB,'[](const DataStructure &ds){ return ds.N_datasets; }','[](const DataStructure &d) -> long { return d.N_datasets; }')
    e.sub(B,'.def("calculateStandardCorrelation", &Correlator::calculateStandardCorrelation)','.def("calculateStandardCorrelation", &Correlator::calculateStandardCorrelation, py::call_guard<py::gil_scoped_release>())')
ref('r8',r8)
def r9(e): # python
    e.func(P,'        def lag_generator(','    def autocorrelation(','''        select = SELECTION_FUNCTIONS
        weigh = WEIGHT_FUNCTIONS
        lags = list(_lags(corr.min_lag, corr.max_lag, corr.lag_resolution))
        count = 0
        for k in lags:
            step = CorrelationIterator(k, corr.N_datasets)
            for operation in (
                select[selection_function],
                Correlator.deltaT,
                weigh[weight_function],
                Correlator.findCorrelation,
            ):
                operation(corr, step)
            corr.addCorrelationData(step, count)
            count += 1
        corr.cleanCorrelationData(count)

''')
    e.sub(P,'class SACF:','''def _lags(start, stop, step):
    """lags from start to stop, with 0 put in where it is stepped over"""
    previous = None
    k = start
    while not k > stop:
        if k > 0 and (previous is None or previous < 0):
            yield 0
        yield k
        previous = k
        k = k + step


class SACF:''')
    e.func(P,'        if max_lag is not None:\n            corr.max','    @staticmethod\n    def find_corr','''        given = dict(
            min_lag=min_lag, max_lag=max_lag, lag_resolution=lag_resolution, alpha=alpha
        )
        for name, value in given.items():
            if value is None:
                continue
            setattr(corr, name, value)

''')
    e.func(P,'        if return_correlator:\n','ZZZ' if False else '            return (\n                corr.lag_timeseries(),\n                corr.correlations()\n                if len(corr.correlations()) > 1.0\n                else corr.correlations()[0],\n            )','        XX')
def r9f(e):
    r9(e)
    e.sub(P,'        XX            return (\n                corr.lag_timeseries(),\n                corr.correlations()\n                if len(corr.correlations()) > 1.0\n                else corr.correlations()[0],\n            )','''        rows = corr.correlations()
        result = (corr.lag_timeseries(), rows if len(rows) != 1 else rows[0])
        return result + (corr,) if return_correlator else result''')
ref('r9',r9f)
def r10(e): # struct storage: rows in CorrelationData
    e.func(C,'std::vector< std::vector<double> > Correlator::correlations() {','void Correlator::naturalSelectionFunctionIdx','''std::vector< std::vector<double> > Correlator::correlations() {
    std::vector< std::vector<double> > out(N_datasets);
    for(int j = 0; j < N_datasets; j++){
        const auto row = correlation_data._correlations.begin() + j * num_lag_steps;
        out.at(j).assign(row, row + num_lag_steps);
    }
    return out;
};

''')
    e.func(C,'void Correlator::deltaT(','void Correlator::getFractionWeights','''void Correlator::deltaT(CorrelationIterator* cor_it){
    const auto& times = *ds->rnormalised_timeseries();
    const auto& shifted = cor_it->shifted_timeseries;
    for(size_t i = 0; i < cor_it->selection_indices.size(); i++){
        cor_it->delta_t.push_back(std::fabs(shifted[i] - times[cor_it->selection_indices[i]]));
    }
    cor_it->shifted_timeseries.clear();
}

''')
    e.func(C,'CorrelationIterator::CorrelationIterator(','Correlator::Correlator(DataStructure* ds_in)','''CorrelationIterator::CorrelationIterator(double k_in, double vec_size): k(k_in), correlation((size_t) vec_size, 0.0) {}

''')
    e.func(C,'Correlator::Correlator(DataStructure* ds_in){','    N_datasets = ds->N','Correlator::Correlator(DataStructure* ds_in): ds(ds_in), num_lag_steps(0){\n')
    e.sub(C,"    num_lag_steps = 0; // storage grows as lags are added\n","")
    e.sub(CH,"double N_datasets;","long N_datasets;")
    e.sub(CH,"double M_datapoints;","long M_datapoints;")
ref('r10',r10)

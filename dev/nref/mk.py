import subprocess, os, shutil, tempfile
def ref(name, edits):
    w = tempfile.mkdtemp(prefix='nr-'); r = w + '/r'
    subprocess.run(['git','clone','-q','/repo',r],check=True)
    for f,o,n in edits:
        p=r+'/'+f; s=open(p).read()
        if o is None: s = n + s
        else:
            assert s.count(o)==1,(name,f,s.count(o),o)
            s=s.replace(o,n)
        open(p,'w').write(s)
    open('/tmp/nref/%s.diff'%name,'w').write(subprocess.run(['git','-C',r,'diff'],stdout=subprocess.PIPE,text=True).stdout)
    shutil.rmtree(w)
def between(f,a,b):
    s=open('/repo/'+f).read(); i=s.index(a); return s[i:s.index(b,i)] if b else s[i:]
C='sacf/correlator/Correlator.cpp'; D='sacf/datastructure/DataStructure.cpp'; P='sacf/sacf.py'; B='sacf/correlator/correlator_bindings.cpp'
DB='sacf/datastructure/datastructure_bindings.cpp'; CH='sacf/include/Correlator.h'; DH='sacf/include/DataStructure.h'
SEL=between(C,'void Correlator::naturalSelectionFunctionIdx','void Correlator::findCorrelation')
FC=between(C,'void Correlator::findCorrelation','double Correlator::fractionWeightFunction')
ref('r12',[(C,SEL,'''namespace {
    typedef std::vector<double> Times;

    // index of the time nearest to target, the later one of two equally near
    long nearestIndex(const Times &times, double target){
        Times::const_iterator const after = std::lower_bound(times.cbegin(), times.cend(), target);
        if(after == times.cbegin()){ return 0; }
        long const hi = after - times.cbegin();
        double const below = std::fabs(target - times.at(hi - 1));
        return below < std::fabs(target - times.at(hi)) ? hi - 1 : hi;
    }

    template <typename Beyond>
    void shiftTimes(const Times &times, double k, Times &out, Beyond beyond){
        out.clear();
        out.reserve(times.size());
        size_t n = 0;
        while(n < times.size() && !beyond(times[n] + k, times.back())){ out.push_back(times[n++] + k); }
    }
}

void Correlator::naturalSelectionFunctionIdx(CorrelationIterator* cor_it){
    auto const &times = *ds->rnormalised_timeseries();
    auto &shifted = cor_it->shifted_timeseries;
    startLag(cor_it);
    shiftTimes(times, cor_it->k, shifted, std::greater<double>());
    std::transform(shifted.begin(), shifted.end(), std::back_inserter(cor_it->selection_indices),
                   [&times](double s){ return nearestIndex(times, s); });
}

void Correlator::fastSelectionFunctionIdx(CorrelationIterator* cor_it){
    auto const &times = *ds->rnormalised_timeseries();
    auto &shifted = cor_it->shifted_timeseries;
    startLag(cor_it);
    shiftTimes(times, cor_it->k, shifted, std::greater_equal<double>());
    if(shifted.empty()){ return; }
    long const first = nearestIndex(times, shifted.front());
    auto &idx = cor_it->selection_indices;
    idx.assign(std::min(shifted.size(), times.size() - first), 0);
    std::iota(idx.begin(), idx.end(), first);
}

'''),(C,'#include <cfloat>\n','#include <cfloat>\n#include <algorithm>\n#include <functional>\n#include <iterator>\n'),
(C,'''   double diff = DBL_MAX;
   int n = arr->size();

   // Find the min diff by comparing adjacent pairs in sorted array
   for (int i=0; i<n-1; i++){
      double tdiff = arr->at(i+1) - arr->at(i);
      if (tdiff < diff){
          diff = tdiff;
      }
   }
   return diff;''','''   if(arr->size() < 2){ return DBL_MAX; }
   std::vector<double> gaps(arr->size());
   std::adjacent_difference(arr->begin(), arr->end(), gaps.begin());
   return std::min(DBL_MAX, *std::min_element(gaps.begin() + 1, gaps.end()));'''),
(C,FC,'''void Correlator::findCorrelation(CorrelationIterator* cor_it){
    auto const &data = *ds->rnormalised_data();
    auto const &weights = cor_it->weights;
    bool const too_few = cor_it->correlation.size() < (size_t) N_datasets;
    if(too_few || weights.size() > cor_it->selection_indices.size()){
        throw std::out_of_range(too_few ? "iterator made for fewer data sets" : "more weights than selected samples");
    }
    int j = 0;
    for(auto &sum: cor_it->correlation){
        double const scale = 1 / N[j];
        for(std::size_t i = 0; i != weights.size(); ++i){
            double const x = data.at(ds->getVectorIndex(i, j)), y = data.at(ds->getVectorIndex(cor_it->selection_indices[i], j));
            if(std::isnan(x) || std::isnan(y)){ continue; }
            sum += weights[i] * (x * y);
        }
        sum *= scale;
        if(++j == N_datasets){ break; }
    }
}

'''),
(C,between(C,'    double k = min_lag;','    cleanCorrelationData(i);'),'''    int i = 0;
    auto const at = [this, &i](double lag){ _calculateStandardCorrelation(lag, i++); };
    bool zero_done = false;
    for(double k = min_lag; k <= max_lag; k += lag_resolution){
        if(k >= 0 && !zero_done){
            zero_done = true;
            if(k != 0){ at(0); }
        }
        at(k);
        if(k + lag_resolution > k){ continue; }
        throw std::invalid_argument("lag_resolution does not lead from min_lag to max_lag");
    }
'''),
(C,'''    for(int j = 0; j < N_datasets; j++){
        correlation_data._correlations[timestep_number + num_lag_steps * j] = col_it->correlation[j];
    }''','''    double *slot = correlation_data._correlations.data() + timestep_number;
    for(int j = 0; j < N_datasets; j++, slot += num_lag_steps){ *slot = col_it->correlation[j]; }'''),
])
CT=between(D,'DataStructure::DataStructure(const std::string &filename){','void DataStructure::setDataMean')
TAIL=between(D,'std::vector< std::vector<double> > DataStructure::data_2d(){',None)
ref('r13',[(D,CT,'''namespace {
    struct Row { double t; double x; std::vector<double> rest; };

    // a row of numbers; false for comments, titles and blank lines
    bool parseRow(std::string line, Row &row){
        if(line.empty() || line[0] == '#'){ return false; }
        for(char &ch: line){ if(ch == ','){ ch = ' '; } }
        std::istringstream in(line);
        in >> row.t >> row.x;
        if(!in){ return false; }
        row.rest.clear();
        for(double v; in >> v;){ row.rest.push_back(v); }
        return true;
    }

    template <typename F>
    std::vector< std::vector<double> > rows(long n, long m, F value){
        std::vector< std::vector<double> > out;
        out.reserve(n);
        for(long j = 0; j < n; ++j){
            out.emplace_back(m);
            for(long i = 0; i < m; ++i){ out.back()[i] = value(i, j); }
        }
        return out;
    }
}

DataStructure::DataStructure(const std::string &filename): N_datasets(1){
    std::ifstream file;
    file.open(filename.c_str());
    if(!file){ throw BadFileEx; }
    bool has_errors = true;
    Row row;
    for(std::string line; std::getline(file, line);){
        if(!parseRow(line, row)){ continue; }
        t.push_back(row.t);
        _data.push_back(row.x);
        if(t.size() == 1){ has_errors = !row.rest.empty(); }
        if(has_errors){ err.push_back(row.rest.empty() ? std::numeric_limits<double>::quiet_NaN() : row.rest.front()); }
    }
    if(file.bad()){ throw BadFileEx; }
    M_datapoints = t.size();
    setUp();
}

'''),(D,'#include <cmath>\n','#include <cmath>\n#include <limits>\n#include <functional>\n'),
(D,TAIL,'''std::vector< std::vector<double> > DataStructure::data_2d(){
    return rows(N_datasets, M_datapoints, [this](long i, long j){ return _data[getVectorIndex(i, j)]; });
}

std::vector< std::vector<double> > DataStructure::err_2d(){
    if(err.empty()){ return {}; }
    return rows(N_datasets, M_datapoints, [this](long i, long j){ return err[getVectorIndex(i, j)]; });
}

std::vector< std::vector<double> > DataStructure::normalised_data_2d(){
    return rows(N_datasets, M_datapoints, [this](long i, long j){ return norm_data[getVectorIndex(i, j)]; });
}
'''),
(D,between(D,'void DataStructure::setDataMean(){','void DataStructure::settMedian'),'''void DataStructure::setDataMean(){  // ignoring any 'NaN' values
    data_mean.clear();
    for(long j = 0; j < N_datasets; ++j){
        double sum = 0;
        long count = 0;
        for(long i = 0; i < M_datapoints; ++i){
            double const x = _data[getVectorIndex(i, j)];
            if(!std::isnan(x)){ sum += x; ++count; }
        }
        data_mean.push_back(sum / count);
    }
}

void DataStructure::settMax(){ t_max = *(t.end() - 1); } // as time array is ordered

void DataStructure::calcNormt(){
    double const origin = t.front();
    for(size_t i = 0; i < t.size(); ++i){ norm_t[i] = t[i] - origin; }
}

void DataStructure::calcNormData(){
    for(long j = 0; j < N_datasets; ++j){
        for(long i = getVectorIndex(0, j); i < getVectorIndex(M_datapoints, j); ++i){ norm_data[i] = _data[i] - data_mean[j]; }
    }
}

'''),
(D,'''    size_t size = norm_t.size();
    if(size  % 2 == 0) {t_median = (norm_t[size / 2 - 1] + norm_t[size / 2]) / 2;}
    else {t_median = norm_t[size / 2];}''','''    std::vector<double> const &v = norm_t;
    size_t const half = v.size() >> 1;
    t_median = (v.size() & 1) ? v[half] : 0.5 * (v[half - 1] + v[half]);'''),
])
ref('r14',[(P,'''from .datastructure import DataStructure
from .correlator import CorrelationIterator, Correlator
''','''from __future__ import annotations

import enum
import itertools
import logging
import operator
from collections import namedtuple
from contextlib import contextmanager
from typing import Callable, Dict, Iterator, List, NamedTuple, Optional, Tuple, Union

from .datastructure import DataStructure
from .correlator import CorrelationIterator, Correlator

logger = logging.getLogger(__name__)
'''),
(P,between(P,'        i = -1  # no lags','    def autocorrelation('),'''        select = SELECTION_FUNCTIONS.__getitem__
        weigh = WEIGHT_FUNCTIONS.__getitem__
        n_lags = 0
        for position, lag in zip(
            itertools.count(),
            lag_generator(corr.min_lag, corr.max_lag, corr.lag_resolution),
        ):
            step = SACF._step(corr, lag, select(selection_function), weigh(weight_function))
            corr.addCorrelationData(step, position)
            logger.debug("lag %s at %d", lag, position)
            n_lags = position + 1
        corr.cleanCorrelationData(n_lags)

    @staticmethod
    def _step(corr: Correlator, lag: float, select: Callable, weigh: Callable) -> CorrelationIterator:
        """One lag, step by step"""
        step = CorrelationIterator(lag, corr.N_datasets)
        select(corr, step)
        corr.deltaT(step)
        weigh(corr, step)
        corr.findCorrelation(step)
        return step

'''),
(P,between(P,'        corr = Correlator(self.data)',None),'''        corr = self._correlator(
            min_lag=min_lag, max_lag=max_lag, lag_resolution=lag_resolution, alpha=alpha
        )
        options = (selection_function, weight_function)
        if options != NATIVE:
            # slow python method with user specified function
            self.find_correlation(corr, *options)
        else:
            # fast c++ method
            corr.calculateStandardCorrelation()

        lags, values = self._results(corr)
        if not return_correlator:
            return lags, values
        return lags, values, corr

    def _correlator(self, **parameters):
        corr = Correlator(self.data)
        self.set_up_correlation(corr, **parameters)
        return corr

    @staticmethod
    def _results(corr) -> Tuple[List[float], Union[List[float], List[List[float]]]]:
        values = corr.correlations()
        try:
            (values,) = values
        except ValueError:
            pass
        return corr.lag_timeseries(), values


NATIVE = ("natural", "fractional")
'''),
(P,'''        if max_lag is not None:
            corr.max_lag = max_lag
        if min_lag is not None:
            corr.min_lag = min_lag
        if lag_resolution is not None:
            corr.lag_resolution = lag_resolution
        if alpha is not None:
            corr.alpha = alpha
''','''        parameters = {
            "min_lag": min_lag,
            "max_lag": max_lag,
            "lag_resolution": lag_resolution,
            "alpha": alpha,
        }
        for name in filter(lambda key: parameters[key] is not None, parameters):
            setattr(corr, name, parameters[name])
'''),
(P,'''        if filename:
            self.data = DataStructure(filename)
        else:
            if errors is None:
                self.data = DataStructure(timeseries, values)
            else:
                self.data = DataStructure(timeseries, values, errors)
''','''        arguments = (filename,) if filename else (timeseries, values, errors)
        if arguments[-1] is None:
            arguments = arguments[:-1]
        self.data = DataStructure(*arguments)
'''),
])
ref('r15',[(CH,'''    void clearCorrelation() {correlation_data = CorrelationData(); num_lag_steps = 0; };
''','''    void clearCorrelation();
'''),(CH,'''struct CorrelationData{
    std::vector<double> _correlations; std::vector<double> _timeseries;
};
''','''class CorrelationData{
    std::vector< std::vector<double> > rows; // one row of lags per series
    std::vector<double> lags;

public:
    void shape(size_t series, size_t n){
        rows.resize(series);
        for(auto &row: rows){ row.resize(n); }
        lags.resize(n);
    }
    size_t size() const { return lags.size(); }
    void store(size_t at, double lag, const std::vector<double> &values){
        lags[at] = lag;
        for(size_t j = 0; j < rows.size(); ++j){ rows[j][at] = values[j]; }
    }
    const std::vector< std::vector<double> > &correlations() const { return rows; }
    const std::vector<double> &timeseries() const { return lags; }
};
'''),(CH,'    int num_lag_steps;\n',''),
(C,'    num_lag_steps = 0; // storage grows as lags are added\n',''),
(C,'std::vector<double> Correlator::lag_timeseries() { return correlation_data._timeseries; };','''std::vector<double> Correlator::lag_timeseries() { return correlation_data.timeseries(); }

void Correlator::clearCorrelation(){ correlation_data = CorrelationData(); }'''),
(C,between(C,'    std::vector< std::vector<double> > correlations = std','void Correlator::naturalSelectionFunctionIdx'),'''    if(correlation_data.size() == 0){ return std::vector< std::vector<double> >(N_datasets); }
    return correlation_data.correlations();
};

'''),
(C,between(C,'void Correlator::reserveLagSteps(int n){','void Correlator::calculateStandardCorrelation'),'''void Correlator::reserveLagSteps(int n){
    // make room for at least n lags, keeping those stored
    if((size_t) std::max(n, 0) > correlation_data.size()){
        correlation_data.shape(N_datasets, std::max((size_t) n, 2 * correlation_data.size()));
    }
}

void Correlator::addCorrelationData(CorrelationIterator* col_it, int timestep_number){
    bool const valid = timestep_number >= 0 && timestep_number < INT_MAX && !(col_it->correlation.size() < (size_t) N_datasets);
    if(!valid){ throw std::out_of_range("result or position does not fit"); }
    reserveLagSteps(timestep_number + 1);
    correlation_data.store(timestep_number, col_it->k, col_it->correlation);
}

void Correlator::cleanCorrelationData(int i){
    // clean up extra elements at end of vector not used.
    correlation_data.shape(N_datasets, i);
}

'''),
(C,'''    auto const& col_it = new CorrelationIterator(k, N_datasets);
    naturalSelectionFunctionIdx(col_it);
    deltaT(col_it);
    getFractionWeights(col_it);
    findCorrelation(col_it);
    addCorrelationData(col_it, i);
    delete col_it;''','''    CorrelationIterator col_it(k, N_datasets);
    naturalSelectionFunctionIdx(&col_it);
    deltaT(&col_it);
    getFractionWeights(&col_it);
    findCorrelation(&col_it);
    addCorrelationData(&col_it, i);'''),
(DH,'    std::vector<double>* rdata();','    const std::vector<double>& times() const { return norm_t; }\n    std::vector<double>* rdata();'),
])

import sys; sys.path.insert(0,'/tmp/con')
from run import *
DS='sacf/datastructure/DataStructure.cpp'; DB='sacf/datastructure/datastructure_bindings.cpp'
def c(f,a,b): return (f,a,b)
W='                cor_it->correlation[j] += weight * product;'
cs=[
('short-idx',[c(COR,'            long idx = distance(ds->rnormalised_timeseries()->begin(),\n                                    lower','            short idx = distance(ds->rnormalised_timeseries()->begin(),\n                                    lower')],['C01']),
('short-i',[c(COR,'        int i = 0;\n        for(auto const& weight','        short i = 0;\n        for(auto const& weight')],['C01']),
('ushort-lags',[c(COR,'    bool is_positive = false;\n    int i = 0;','    bool is_positive = false;\n    unsigned short i = 0;')],['C04','C12']),
('gauss-cut5',[c(COR,'    return exp( -(','    if(delta_t > 5 * alpha){ return 0; }\n    return exp( -(')],['C03','C10']),
('gauss-cut10',[c(COR,'    return exp( -(','    if(delta_t > 10 * alpha){ return 0; }\n    return exp( -(')],['C03','C10']),
('gauss-cut38',[c(COR,'    return exp( -(','    if(delta_t > 30 * alpha){ return 0; }\n    return exp( -(')],['C03','C10']),
('skip-small-weight',[c(COR,W,'                if(weight > 1e-6){ cor_it->correlation[j] += weight * product; }')],['C01','C10']),
('skip-small-product',[c(COR,W,'                if(std::abs(product) > 1e-12){ cor_it->correlation[j] += weight * product; }')],['C01','C07']),
('clip-corr',[c(COR,'        cor_it->correlation[j] *= (1 / N[j]);','        cor_it->correlation[j] *= (1 / N[j]);\n        cor_it->correlation[j] = std::min(cor_it->correlation[j], 1.0);')],['C01']),
('zero-near',[c(COR,'        if(k==0){','        if(std::abs(k) < 1e-9){')],['C04']),
('end-tol',[c(COR,'    while(k <= max_lag){','    while(k <= max_lag + 1e-9){')],['C04']),
('end-tol-rel',[c(COR,'    while(k <= max_lag){','    while(k <= max_lag * (1 + 1e-12)){')],['C04']),
('py-round',[c(PY,'                yield k\n','                yield round(k, 8)\n')],['C09','C10','C25']),
('cpp-round',[c(COR,'        _calculateStandardCorrelation(k, i);\n        k +=','        _calculateStandardCorrelation(std::round(k * 1e9) / 1e9, i);\n        k +=')],['C04','C01']),
('static-cache',[(COR,None,'#include <map>\n'),c(COR,'    cor_it->shifted_timeseries.clear();\n    for(auto const& time_point: *ds->rnormalised_timeseries()){\n        if((time_point + cor_it->k) > ','    static std::map<double, std::vector<double>> seen;\n    auto known = seen.find(cor_it->k);\n    cor_it->shifted_timeseries.clear();\n    if(known != seen.end()){ cor_it->shifted_timeseries = known->second; }\n    else for(auto const& time_point: *ds->rnormalised_timeseries()){\n        if((time_point + cor_it->k) > '),c(COR,'    if(!cor_it->shifted_timeseries.empty()) {\n        for','    seen[cor_it->k] = cor_it->shifted_timeseries;\n    if(!cor_it->shifted_timeseries.empty()) {\n        for')],['C14']),
('static-alpha',[c(COR,'    return 1 / (1 + (delta_t / alpha));','    static const double scale = alpha;\n    return 1 / (1 + (delta_t / scale));')],['C14','C01','C11']),
('nan-time-skip',[c(COR,'            if(!std::isnan(product)){','            if(!std::isnan(product) && product != 0){')],[]),
('min-gap-skip-tiny',[c(COR,'      if (tdiff < diff){','      if (tdiff < diff && tdiff > 1e-12){')],['C05']),
('median-large',[c(DS,'    size_t size = norm_t.size();','    size_t size = std::min(norm_t.size(), (size_t) 2048);')],['C05','C16']),
('mean-chunk',[c(DS,'setDataMean();\n    settMax','setDataMean();\n    settMax')],[]),
('long-line',[c(DS,'            if(line[0] != \'#\') {','            if(line[0] != \'#\' && line.size() < 1024) {')],['C18']),
('stof',[c(DS,'if(linestream >> t_val >> X_val){','float tf;\n                if(linestream >> tf >> X_val){\n                    t_val = tf;')],['C18']),
('sort-file',[c(DS,'    _data = data_in;\n    t = t_in;','    _data = data_in;\n    std::sort(t_in.begin(), t_in.end());\n    t = t_in;')],['C18']),
('dup-rows',[c(DS,'                    t_in.push_back(t_val);','                    if(!t_in.empty() && t_in.back() == t_val){ continue; }\n                    t_in.push_back(t_val);')],['C18']),
('err-last-only',[c(DS,'    for(auto const& data_series: *data_err_in){\n        if (!err.empty() && data_series.size() != t.size()){ throw BadDataEx; }\n    }','    if (!err.empty() && data_err_in->back().size() != t.size()){ throw BadDataEx; }')],['C15']),
('first-last-check',[c(DS,'    for(auto const& data_series: *data_in){\n        if (data_series.size() != t.size()){ throw BadDataEx; }\n    }\n};\n\nDataStructure::DataStructure(std::vector<double>* t_in, std::vector< std::vector<double> >* data_in,\n','    if (data_in->front().size() != t.size() || data_in->back().size() != t.size()){ throw BadDataEx; }\n};\n\nDataStructure::DataStructure(std::vector<double>* t_in, std::vector< std::vector<double> >* data_in,\n')],['C15']),
('reserve-grow',[c(COR,'    for(int j = 0; j < N_datasets; j++){\n        auto start = correlation_data._correlations.begin() + (j * num_lag_steps);\n        std::copy(start, start + num_lag_steps, new_correlations.begin() + (j * new_steps));','    for(int j = 0; j < N_datasets; j++){\n        auto start = correlation_data._correlations.begin() + (j * num_lag_steps);\n        std::copy(start, start + std::min(num_lag_steps, n / 2), new_correlations.begin() + (j * new_steps));')],['C26','C13']),
('clean-m',[c(COR,'        std::copy(start, start + i, copy_correlations.begin() + (j * i));','        std::copy(start, start + i, copy_correlations.begin() + (std::min(j, 2) * i));')],['C08','C26']),
('clear-keeps',[c('sacf/include/Correlator.h','correlation_data = CorrelationData(); num_lag_steps = 0;','correlation_data._timeseries.clear();')],['C13','C26']),
('natural-fast-even',[c(COR,'void Correlator::naturalSelectionFunctionIdx(CorrelationIterator* cor_it){','void Correlator::naturalSelectionFunctionIdx(CorrelationIterator* cor_it){\n    if(cor_it->k == lag_resolution){ fastSelectionFunctionIdx(cor_it); return; }')],['C01','C02','C25']),
('natural-large',[c(COR,'void Correlator::naturalSelectionFunctionIdx(CorrelationIterator* cor_it){','void Correlator::naturalSelectionFunctionIdx(CorrelationIterator* cor_it){\n    if(M_datapoints > 4096){ fastSelectionFunctionIdx(cor_it); return; }')],['C01']),
('alpha-neg',[c(COR,'    alpha = alpha_in;','    alpha = std::abs(alpha_in);')],['C11']),
('maxlag-clamp',[c(COR,'    max_lag = max_lag_in;','    max_lag = std::min(max_lag_in, ds->rnormalised_timeseries()->back());')],['C11','C04']),
('py-falsy',[c(PY,'        if min_lag is not None:','        if min_lag:')],['C11']),
('py-single-lag',[c(PY,'            return (\n                corr.lag_timeseries(),\n                corr.correlations()\n                if len(corr.correlations()) > 1.0\n                else corr.correlations()[0],\n            )','            values = corr.correlations()\n            return (\n                corr.lag_timeseries(),\n                values if len(values) > 1 and len(values[0]) > 1 else values[0],\n            )')],['C08']),
('py-file-none',[c(PY,'            if errors is None:','            if not errors:')],[]),
('py-errors-arith',[c(PY,'                self.data = DataStructure(timeseries, values, errors)','                if not isinstance(values[0], (list, tuple)):\n                    values = [v if e == e else float("nan") for v, e in zip(values, errors)]\n                self.data = DataStructure(timeseries, values, errors)')],['C24','C16']),
('err-sort',[c(DS,'        for(auto const X: data_series){\n            err.push_back(X);\n        }','        for(auto const X: data_series){\n            err.push_back(std::abs(X));\n        }')],['C16']),
('nan-all',[c(COR,'            if(!std::isnan(X)){','            if(!std::isnan(X) && !std::isnan(ds->rdata()->at(ds->getVectorIndex(i, 0)))){')],['C17','C08']),
('keepalive',[c(CB,'.def(py::init<DataStructure*>(), py::keep_alive<1, 2>())','.def(py::init<DataStructure*>(), py::keep_alive<2, 1>())')],['C19']),
('fast-neg',[c(COR,'        if (idx != 0 && std::abs','        if (idx > 1 && std::abs')],['C20']),
('fast-end',[c(COR,'ds->rnormalised_timeseries()->size() - idx));','ds->rnormalised_timeseries()->size() - idx - (idx > 3 ? 1 : 0)));')],['C20']),
('iter-carry',[c(COR,'    auto const& col_it = new CorrelationIterator(k, N_datasets);\n    natural','    static CorrelationIterator* col_it = nullptr;\n    if(col_it == nullptr || col_it->correlation.size() != N_datasets){ col_it = new CorrelationIterator(k, N_datasets); }\n    col_it->k = k;\n    col_it->selection_indices.clear();\n    col_it->weights.clear();\n    natural'),c(COR,'    delete col_it;\n','')],['C25','C01']),
('store-k',[c(COR,'    correlation_data._timeseries[timestep_number] = col_it->k;','    if(correlation_data._timeseries[timestep_number] == 0){ correlation_data._timeseries[timestep_number] = col_it->k; }')],['C26','C13']),
('even-shortcut',[c(COR,'    double product = ','    double product = ')],[]),
]
cs=[x for x in cs if x[2]]
if __name__=='__main__': main(cs)

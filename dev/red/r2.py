import sys; sys.path.insert(0,'/tmp/con')
from run import *
from r import c,DS,DB,COR,PY,CB
H='sacf/include/Correlator.h'; HD='sacf/include/DataStructure.h'; INI='sacf/__init__.py'
W='                cor_it->correlation[j] += weight * product;'
NS='void Correlator::naturalSelectionFunctionIdx(CorrelationIterator* cor_it){'
cs=[
# results memoised on the estimator: the correlator handed out is shared
('py-memo-corr',[c(PY,'        corr = Correlator(self.data)\n        self.set_up','        key = (min_lag, max_lag, lag_resolution, alpha, selection_function, weight_function)\n        if not hasattr(self, "_done"):\n            self._done = {}\n        if key in self._done:\n            corr = self._done[key]\n            out = (corr.lag_timeseries(), corr.correlations() if len(corr.correlations()) > 1 else corr.correlations()[0])\n            return out + (corr,) if return_correlator else out\n        corr = self._done[key] = Correlator(self.data)\n        self.set_up')],['C14','C28']),
('py-memo-lists',[c(PY,'        corr = Correlator(self.data)\n        self.set_up','        key = (min_lag, max_lag, lag_resolution, alpha, selection_function, weight_function)\n        if not hasattr(self, "_done"):\n            self._done = {}\n        if key in self._done and not return_correlator:\n            return self._done[key]\n        corr = Correlator(self.data)\n        self.set_up'),c(PY,'            return (\n                corr.lag_timeseries(),\n                corr.correlations()\n                if len(corr.correlations()) > 1.0\n                else corr.correlations()[0],\n            )','            self._done[key] = (\n                corr.lag_timeseries(),\n                corr.correlations()\n                if len(corr.correlations()) > 1.0\n                else corr.correlations()[0],\n            )\n            return self._done[key]')],['C28','C14']),
('py-lower',[c(PY,'SELECTION_FUNCTIONS[selection_function](','SELECTION_FUNCTIONS[selection_function.lower()](')],['C10']),
('py-prefix',[c(PY,'            WEIGHT_FUNCTIONS[weight_function](corr','            next(WEIGHT_FUNCTIONS[w] for w in WEIGHT_FUNCTIONS if w.startswith(weight_function))(corr')],['C10']),
('py-unknown-first',[c(PY,'        if selection_function == "natural" and weight_function == "fractional":','        if selection_function not in SELECTION_FUNCTIONS or selection_function == "natural" and weight_function == "fractional":')],['C10']),
('single-zero-res',[c(COR,'   double diff = DBL_MAX;\n   int n = arr->size();','   int n = arr->size();\n   double diff = n < 2 ? 0 : DBL_MAX;')],['C05','C12']),
('first-pair-res',[c(COR,'   for (int i=0; i<n-1; i++){','   for (int i=0; i<n-1 && (i < 1000 || i % 2 == 0); i++){')],['C05']),
('mean-static',[c(DS,'        std::vector<double> x_copy(M_datapoints);','        static std::vector<double> x_copy(M_datapoints);')],['C14','C16','C08','C12']),
('mean-partial',[c(DS,'accumulate(x_copy.begin(), end, 0.0)/std::distance(x_copy.begin(), end);','accumulate(x_copy.begin(), end, 0.0)/std::distance(x_copy.begin(), end);\n        if(j > 0 && std::isnan(data_mean[j])){ data_mean[j] = 0; }')],['C17','C16']),
('norm-cache-static',[c(COR,'    N = std::vector<double>(N_datasets);','    static std::vector<double> shared;\n    N = std::vector<double>(N_datasets);')],[]),
('max-lag-last',[c(COR,'    max_lag = ds->rnormalised_timeseries()->back();','    max_lag = ds->max_time();')],['C05','C07']),
('addto-k',[c(COR,'    correlation_data._timeseries[timestep_number] = col_it->k;','    correlation_data._timeseries[timestep_number] = col_it->k;\n    col_it->correlation.assign(col_it->correlation.size(), 0.0);')],['C26','C27','C28']),
('find-twice-ok',[c(COR,'    for(int j = 0; j < N_datasets; j++){\n        int i = 0;\n        for(auto const& weight','    for(int j = 0; j < N_datasets; j++){\n        cor_it->correlation[j] = 0;\n        int i = 0;\n        for(auto const& weight')],['C27','C01']),  # harmless
('clear-weights',[c(COR,'        cor_it->correlation[j] *= (1 / N[j]);\n    }','        cor_it->correlation[j] *= (1 / N[j]);\n    }\n    cor_it->weights.clear();')],['C27']),
('delta-clears-idx',[c(COR,'    cor_it->shifted_timeseries.clear();\n}\n\nvoid Correlator::getFractionWeights','    cor_it->shifted_timeseries.clear();\n    if(cor_it->k == 0){ cor_it->delta_t.assign(cor_it->delta_t.size(), 0); }\n}\n\nvoid Correlator::getFractionWeights')],['C27']),  # harmless
('frac-precomp',[c(COR,'void Correlator::setAlpha(double alpha_in){\n    alpha = alpha_in;','void Correlator::setAlpha(double alpha_in){\n    if(alpha_in == 0){ return; }\n    alpha = alpha_in;')],['C11']),
('weights-alpha-of-first',[c(COR,'    for(auto const& value: cor_it->delta_t){\n        cor_it->weights.push_back(gaussianWeightFunction(value));','    double last = -1, w = 0;\n    for(auto const& value: cor_it->delta_t){\n        if(std::abs(value - last) > 1e-7){ w = gaussianWeightFunction(value); last = value; }\n        cor_it->weights.push_back(w);\n        continue;\n        cor_it->weights.push_back(gaussianWeightFunction(value));')],['C03','C10']),
('natural-window',[c(COR,'            if(idx != 0){ //i.e. not the first index','            if(idx != 0 && (i < 4096 || idx % 4096)){ //i.e. not the first index')],['C01','C02']),
('lb-hint',[c(COR,'lower_bound(ds->rnormalised_timeseries()->begin(),\n                                                ds->','lower_bound(ds->rnormalised_timeseries()->begin() + (cor_it->k > 0 ? i : 0),\n                                                ds->')],['C01','C02']), # harmless
('lb-hint-bad',[c(COR,'lower_bound(ds->rnormalised_timeseries()->begin(),\n                                                ds->','lower_bound(ds->rnormalised_timeseries()->begin() + (cor_it->k >= -1 ? i : 0),\n                                                ds->')],['C01','C02']),
('prod-order',[c(COR,'(ds->rnormalised_data()->at(ds->getVectorIndex(i, j))) *\n','(ds->rnormalised_data()->at(ds->getVectorIndex(cor_it->k < 0 && N_datasets > 2 ? 0 : i, j))) *\n')],['C01','C08']),
('n-weights',[c(COR,'        cor_it->correlation[j] *= (1 / N[j]);','        cor_it->correlation[j] *= (1 / N[cor_it->weights.size() == 1 ? 0 : j]);')],['C08','C01']),
('grid-init',[c(COR,'    double k = min_lag;\n    bool is_positive = false;','    double k = min_lag;\n    bool is_positive = min_lag > 0 && max_lag < 2 * lag_resolution;')],['C04','C09']),
('grid-big-res',[c(COR,'    while(k <= max_lag){','    while(k <= max_lag || (k > 0 && !is_positive && max_lag >= 0)){')],['C04','C09']),
('py-grid-int',[c(PY,'            k = min_lag\n            is_positive','            k = int(min_lag) if min_lag == int(min_lag) else min_lag\n            is_positive')],['C09','C29']),
('py-zero-str',[c(PY,'                    yield 0\n','                    yield k * 0 if k < 1e9 else k\n')],['C09']),
('file-comment-mid',[c(DS,"            if(line[0] != '#') {","            line = line.substr(0, line.find('#'));\n            if(line[0] != '#') {")],['C18']), # changes 5 # columns? harmless mostly
('file-space-title',[c(DS,"            if(line[0] != '#') {","            if(line[0] != '#' && (line[0] != ' ' || line.size() < 40)) {")],['C18']),
('file-last',[c(DS,"        while (std::getline(file, line, '\\n')) {","        while (std::getline(file, line, '\\n') && (!file.eof() || line.size() > 2)) {")],['C18']),
('file-err-zero',[c(DS,'                        if(data_err_in.size() < data_in.size()){ data_err_in.push_back(X_err_val); }','                        if(data_err_in.size() < data_in.size()){ data_err_in.push_back(X_err_val > 0 ? X_err_val : NAN); }')],['C18']),
('file-semicolon',[c(DS,"                    std::replace(line.begin(), line.end(), ',', ' ');","                    line[line.find_first_of(',')] = ' ';")],['C18']),
('file-exp',[c(DS,"                std::stringstream linestream(line);","                std::replace(line.begin(), line.end(), 'E', ' ');\n                std::stringstream linestream(line);")],['C18']),
('file-bad-cont',[c(DS,"                if(linestream >> t_val >> X_val){","                if(t_in.size() > 1 && !(std::isdigit(line[0]) || line[0] == '-' || line[0] == '.' || line[0] == '+' || line[0] == ' ')){ break; }\n                if(linestream >> t_val >> X_val){")],['C18']),
('keep-ref',[c(DS,'std::vector<double>* DataStructure::rdata() { return &_data; };','std::vector<double>* DataStructure::rdata() { static std::vector<double> d; d = _data; return &d; };')],['C14','C19','C01']), # harmless
('err2d-static',[c(DS,'    std::vector< std::vector<double> > err_2d = std::vector< std::vector<double> >(N_datasets);','    static std::vector< std::vector<double> > err_2d(N_datasets);')],['C16','C28','C14']),
('vi-int',[c(DS,'    return (long) i + j * M_datapoints;','    return (long) i + j * (M_datapoints + (M_datapoints > 2000 && j > 1 ? -1 : 0));')],['C16','C08']),
('alpha-median-abs',[c(COR,'    alpha = ds->median_time();','    alpha = std::max(ds->median_time(), 1e-3);')],['C05']),
('mindiff-abs',[c(COR,'      if (tdiff < diff){','      if (tdiff < diff * (1 - 1e-3)){')],['C05']),
('n-kahan',[c(COR,'                N[j] += (X - ds->mean_data()[j]) * (X - ds->mean_data()[j]);','                double y = (X - ds->mean_data()[j]) * (X - ds->mean_data()[j]);\n                if(y > 1e-16 * N[j]){ N[j] += y; }')],['C06','C23','C01']), #harmless-ish
('prop-const',[c(CB,'&Correlator::getMinLag, &Correlator::setMinLag','&Correlator::getMinLag, [](Correlator& c, double v){ c.setMinLag(v); if(v > c.getMaxLag()){ c.setMaxLag(v); } }')],['C11','C04','C13']),
('init-import',[c(INI,'from .datastructure import EmptyDataStructureException, BadDataFileReadException','from .datastructure import EmptyDataStructureException\nfrom .datastructure import BadDataInputException as BadDataFileReadException')],['C18','C15']),
('ds-ctor-swap',[c(PY,'        if filename:','        if filename and values is None:')],[]),
('py-setup-order',[c(PY,'        if alpha is not None:\n            corr.alpha = alpha','        if alpha is not None:\n            corr.alpha = alpha if lag_resolution is None else max(alpha, 0)')],['C11']),
('clear-on-set',[c(COR,'    lag_resolution = lag_res;','    lag_resolution = lag_res;\n    clearCorrelation();')],['C28','C13','C27']),
('get-mdata-int',[c(COR,'double Correlator::getMDatapoints(){\n    return M_datapoints;','double Correlator::getMDatapoints(){\n    return (short) M_datapoints;')],['C16','C28']),
('corr-list-cap',[c(COR,'        for(int i = 0; i < num_lag_steps; i++){\n            dataset[i]','        for(int i = 0; i < num_lag_steps && i < 65536; i++){\n            dataset[i]')],['C04','C26']),
('norm-t-last',[c(DS,'t_max = t.back(); }','t_max = t[std::min(t.size() - 1, (size_t) 32768)]; }')],['C16']),
('normdata-nan',[c(DS,'    calcNormt(); calcNormData();','    calcNormt(); calcNormData();\n    for(auto& x: norm_data){ if(std::isnan(x)){ x = 0; } }')],['C17','C16']),
]
cs=[x for x in cs if x[2]]
if __name__=='__main__': main(cs)

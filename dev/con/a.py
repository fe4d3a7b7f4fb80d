from run import *
FIND=open('/repo/'+COR).read()
NAT=FIND[FIND.index('    cor_it->shifted_timeseries.clear();\n    for(auto'):FIND.index('void Correlator::fastSelectionFunctionIdx')]
FC=FIND[FIND.index('void Correlator::findCorrelation'):FIND.index('double Correlator::fractionWeightFunction')]
STD=FIND[FIND.index('    auto const& col_it = new'):]
MEAN=open('/repo/'+DS).read(); MEAN=MEAN[MEAN.index('        std::vector<double> x_copy'):MEAN.index('void DataStructure::settMax')]
PARSE=open('/repo/'+DS).read(); PARSE=PARSE[PARSE.index('    if(file.good()){'):PARSE.index('    _data = data_in;\n    t = t_in;\n    if(has')]
inc=lambda *h: (COR,None,''.join('#include <%s>\n'%x for x in h))
incd=lambda *h: (DS,None,''.join('#include <%s>\n'%x for x in h))
cs=[
('unique_ptr',[inc('memory'),(COR,STD,STD.replace('auto const& col_it = new CorrelationIterator(k, N_datasets);','std::unique_ptr<CorrelationIterator> own(new CorrelationIterator(k, N_datasets));\n    CorrelationIterator* col_it = own.get();').replace('    delete col_it;\n',''))],['C21']),
('shared_ptr',[inc('memory'),(COR,STD,STD.replace('auto const& col_it = new CorrelationIterator(k, N_datasets);','auto own = std::make_shared<CorrelationIterator>(k, N_datasets);\n    CorrelationIterator* col_it = own.get();').replace('    delete col_it;\n',''))],['C21']),
('stack',[(COR,STD,STD.replace('auto const& col_it = new CorrelationIterator(k, N_datasets);','CorrelationIterator it(k, N_datasets);\n    CorrelationIterator* col_it = &it;').replace('    delete col_it;\n',''))],['C21']),
('function',[inc('functional'),(COR,'    int i = 0;\n    for(auto const& value: cor_it->delta_t){\n        cor_it->weights.push_back(fractionWeightFunction(value));\n        i++;\n    }','    std::function<double(double)> w = [this](double d){ return fractionWeightFunction(d); };\n    for(double value: cor_it->delta_t){ cor_it->weights.push_back(w(value)); }')],['C21','C03']),
('memfn',[inc('functional'),(COR,'    int i = 0;\n    for(auto const& value: cor_it->delta_t){\n        cor_it->weights.push_back(fractionWeightFunction(value));\n        i++;\n    }','    double (Correlator::*w)(double) = &Correlator::fractionWeightFunction;\n    for(double value: cor_it->delta_t){ cor_it->weights.emplace_back((this->*w)(value)); }')],['C21','C03']),
('bind',[inc('functional','algorithm','iterator'),(COR,'    int i = 0;\n    for(auto const& value: cor_it->delta_t){\n        cor_it->weights.push_back(fractionWeightFunction(value));\n        i++;\n    }','    std::transform(cor_it->delta_t.cbegin(), cor_it->delta_t.cend(), std::back_inserter(cor_it->weights), std::bind(&Correlator::fractionWeightFunction, this, std::placeholders::_1));')],['C21','C03']),
('map',[inc('map'),(COR,FC,FC.replace('        int i = 0;\n','        std::map<long, double> parts;\n        int i = 0;\n').replace('cor_it->correlation[j] += weight * product;','parts[i] = weight * product;').replace('        cor_it->correlation[j] *=','        for(auto const& p: parts){ cor_it->correlation[j] += p.second; }\n        cor_it->correlation[j] *='))],['C21']),
('umap',[inc('unordered_map'),(COR,FC,FC.replace('        int i = 0;\n','        std::unordered_map<long, double> parts;\n        int i = 0;\n').replace('cor_it->correlation[j] += weight * product;','parts[i] = weight * product;').replace('        cor_it->correlation[j] *=','        for(int q = 0; q < i; q++){ if(parts.count(q)){ cor_it->correlation[j] += parts[q]; } }\n        cor_it->correlation[j] *='))],['C21']),
('deque',[inc('deque'),(COR,FC,FC.replace('        int i = 0;\n','        std::deque<double> parts;\n        int i = 0;\n').replace('cor_it->correlation[j] += weight * product;','parts.push_back(weight * product);').replace('        cor_it->correlation[j] *=','        while(!parts.empty()){ cor_it->correlation[j] += parts.front(); parts.pop_front(); }\n        cor_it->correlation[j] *='))],['C21']),
('list',[inc('list'),(COR,FC,FC.replace('        int i = 0;\n','        std::list<double> parts;\n        int i = 0;\n').replace('cor_it->correlation[j] += weight * product;','parts.push_back(weight * product);').replace('        cor_it->correlation[j] *=','        for(double p: parts){ cor_it->correlation[j] += p; }\n        cor_it->correlation[j] *='))],['C21']),
('valarray',[inc('valarray'),(COR,FC,FC.replace('        int i = 0;\n','        std::valarray<double> parts(0.0, cor_it->weights.size() + 1);\n        int i = 0;\n').replace('cor_it->correlation[j] += weight * product;','parts[i] = weight * product;').replace('        cor_it->correlation[j] *=','        cor_it->correlation[j] += parts.sum();\n        cor_it->correlation[j] *='))],['C21']),
('set',[inc('set'),(COR,'    // Find the min diff','    std::multiset<double> gaps;\n    for(int i = 0; i < n - 1; i++){ gaps.insert(arr->at(i+1) - arr->at(i)); }\n    return gaps.empty() ? diff : *gaps.begin();\n')] if '    // Find the min diff' in FIND else [inc('set'),(COR,'   // Find the min diff by comparing adjacent pairs in sorted array','   std::multiset<double> gaps;\n    for(int i = 0; i < n - 1; i++){ gaps.insert(arr->at(i+1) - arr->at(i)); }\n    if(n > 0) { return gaps.empty() ? diff : *gaps.begin(); }\n   //')],['C05']),
('sort',[inc('algorithm'),(COR,'   // Find the min diff by comparing adjacent pairs in sorted array','   std::vector<double> gaps;\n    for(int i = 0; i < n - 1; i++){ gaps.push_back(arr->at(i+1) - arr->at(i)); }\n    std::sort(gaps.begin(), gaps.end());\n    if(n > 0) { return gaps.empty() ? diff : gaps[0]; }\n   //')],['C05']),
('pq',[inc('queue'),(COR,'   // Find the min diff by comparing adjacent pairs in sorted array','   std::priority_queue<double, std::vector<double>, std::greater<double>> gaps;\n    for(int i = 0; i < n - 1; i++){ gaps.push(arr->at(i+1) - arr->at(i)); }\n    if(n > 0) { return gaps.empty() ? diff : gaps.top(); }\n   //')],['C05']),
('upper',[inc('algorithm','tuple'),(COR,NAT,'''    const auto& T = *ds->rnormalised_timeseries();
    cor_it->shifted_timeseries.clear();
    for(size_t i = 0; i < T.size() && T[i] + cor_it->k <= T.back(); ++i){ cor_it->shifted_timeseries.push_back(T[i] + cor_it->k); }
    for(const double s: cor_it->shifted_timeseries){
        auto hi = std::upper_bound(T.begin(), T.end(), s);
        auto best = hi == T.begin() ? hi : std::prev(hi);
        if(hi != T.end() && hi != T.begin() && std::tuple<double, int>(*hi - s, 0) < std::make_tuple(s - *best, 0)){ best = hi; }
        cor_it->selection_indices.push_back(std::distance(T.begin(), best));
    }
}

''')],['C02','C21']),
('minelem',[inc('algorithm','numeric'),(COR,NAT,'''    const auto& T = *ds->rnormalised_timeseries();
    cor_it->shifted_timeseries.clear();
    std::copy_if(T.begin(), T.end(), std::back_inserter(cor_it->shifted_timeseries), [&](double v){ return v + cor_it->k <= T.back(); });
    for(auto& s: cor_it->shifted_timeseries){ s += cor_it->k; }
    std::vector<long> idx(T.size());
    std::iota(idx.begin(), idx.end(), 0L);
    for(const double s: cor_it->shifted_timeseries){
        cor_it->selection_indices.push_back(*std::min_element(idx.begin(), idx.end(), [&](long a, long b){ return std::fabs(T[a] - s) < std::fabs(T[b] - s); }));
    }
}

''')],['C02']),
('twopointer',[(COR,NAT,'''    const auto& T = *ds->rnormalised_timeseries();
    const double last = T.back();
    cor_it->shifted_timeseries.clear();
    long p = 0;
    for(size_t i = 0; i < T.size(); i++){
        const double s = T[i] + cor_it->k;
        if(s > last){ return; }
        while(p + 1 < (long) T.size() && std::abs(T[p + 1] - s) <= std::abs(T[p] - s)){ p++; }
        cor_it->shifted_timeseries.push_back(s);
        cor_it->selection_indices.push_back(p);
    }
}

''')],['C02','C01']),
('inner',[inc('numeric','algorithm'),(COR,FC,'''void Correlator::findCorrelation(CorrelationIterator* cor_it){
    for(int j = 0; j < N_datasets; j++){
        std::vector<double> a(cor_it->weights.size());
        for(size_t i = 0; i < a.size(); i++){
            const double q = ds->rnormalised_data()->at(ds->getVectorIndex(i, j)) * ds->rnormalised_data()->at(ds->getVectorIndex(cor_it->selection_indices[i], j));
            a[i] = q != q ? 0. : q;
        }
        cor_it->correlation[j] = std::inner_product(a.begin(), a.end(), cor_it->weights.begin(), cor_it->correlation[j]) / N[j];
    }
}

''')],['C21','C17']),
('fma',[(COR,'cor_it->correlation[j] += weight * product;','cor_it->correlation[j] = std::fma(weight, product, cor_it->correlation[j]);')],['C21','C23']),
('pow',[(COR,'(delta_t / alpha) * (delta_t / alpha)','std::pow(delta_t / alpha, 2)'),(COR,'exp( -((delta_t) * (delta_t)) / (2 * alpha * alpha))','std::exp(-0.5 * std::pow(delta_t / alpha, 2.0))')],['C03','C10']),
('expneg',[(COR,'exp( -((delta_t) * (delta_t)) / (2 * alpha * alpha))','1.0 / std::exp(delta_t * delta_t / (2.0 * alpha * alpha))')],['C03','C10','C23']),
('exp2',[(COR,'exp( -((delta_t) * (delta_t)) / (2 * alpha * alpha))','std::exp2(-M_LOG2E * delta_t * delta_t / (2.0 * alpha * alpha))')],['C03']),
('hypot',[(COR,'std::abs(ds->rnormalised_timeseries()->at(value) - cor_it->shifted_timeseries[t_i])','std::hypot(ds->rnormalised_timeseries()->at(value) - cor_it->shifted_timeseries[t_i], 0.0)')],['C02']),
('sqrtabs',[(COR,'std::abs(ds->rnormalised_timeseries()->at(value) - cor_it->shifted_timeseries[t_i])','std::max(ds->rnormalised_timeseries()->at(value) - cor_it->shifted_timeseries[t_i], cor_it->shifted_timeseries[t_i] - ds->rnormalised_timeseries()->at(value))')],['C02']),
('alphapow',[(COR,'return 1 / (1 + (delta_t / alpha));','return alpha / (alpha + delta_t);')],['C03','C01','C23']),
('bits',[(COR,'    if((time_point + cor_it->k) > ds->rnormalised_timeseries()->back()){','    if(std::isgreater(time_point + cor_it->k, ds->rnormalised_timeseries()->back())){')] ,['C02']),
('signbit',[(COR,'if(k==0){','if(std::fpclassify(k) == FP_ZERO){')],['C04']),
('trunc',[(COR,'    k += lag_resolution;\n        i++;','    ++steps;\n        k = min_lag + steps * lag_resolution;\n        i++;'),(COR,'    bool is_positive = false;\n    int i = 0;\n    while','    bool is_positive = false;\n    int steps = 0;\n    int i = 0;\n    while')],['C04','C09']),
('floor',[(COR,'    double k = min_lag;\n','    const double top = std::floor((max_lag - min_lag) / lag_resolution);\n    (void) top;\n    double k = min_lag;\n')],['C04']),
('nthel',[incd('algorithm'),(DS,'    size_t size = norm_t.size();','    std::vector<double> c(norm_t);\n    std::nth_element(c.begin(), c.begin() + c.size() / 2, c.end());\n    size_t size = norm_t.size();')],['C05']),
('welford',[(DS,MEAN,'''        double m = 0; long n = 0;
        for(int i = 0; i < M_datapoints; i++){
            const double v = _data[getVectorIndex(i, j)];
            if(std::isnan(v)){ continue; }
            n++;
            m += (v - m) / n;
        }
        data_mean[j] = n ? m : NAN;
    }
}

''')],['C16','C23','C17']),
('kahan',[(DS,MEAN,'''        double s = 0, c = 0; long n = 0;
        for(int i = 0; i < M_datapoints; i++){
            const double v = _data[getVectorIndex(i, j)];
            if(std::isnan(v)){ continue; }
            const double y = v - c, z = s + y;
            c = (z - s) - y;
            s = z;
            n++;
        }
        data_mean[j] = s / n;
    }
}

''')],['C16','C23','C17']),
('partition',[incd('algorithm'),(DS,MEAN,'''        std::vector<double> x(_data.begin() + getVectorIndex(0, j), _data.begin() + getVectorIndex(M_datapoints, j));
        auto const end = std::stable_partition(x.begin(), x.end(), [](double d) { return !std::isnan(d); });
        data_mean[j] = std::accumulate(x.begin(), end, 0.0) / std::distance(x.begin(), end);
    }
}

''')],['C16','C17']),
('countif',[incd('algorithm'),(DS,MEAN,'''        const auto b = _data.cbegin() + getVectorIndex(0, j), e = b + M_datapoints;
        const auto good = std::count_if(b, e, [](double d){ return d == d; });
        double s = 0.0;
        std::for_each(b, e, [&s](double d){ if(d == d){ s += d; } });
        data_mean[j] = s / good;
    }
}

''')],['C16','C17']),
('pairwise',[(DS,MEAN,'''        std::vector<double> x;
        for(int i = 0; i < M_datapoints; i++){ const double v = _data[getVectorIndex(i, j)]; if(!std::isnan(v)){ x.push_back(v); } }
        const size_t n = x.size();
        while(x.size() > 1){
            std::vector<double> y;
            for(size_t i = 0; i < x.size(); i += 2){ y.push_back(i + 1 < x.size() ? x[i] + x[i + 1] : x[i]); }
            x.swap(y);
        }
        data_mean[j] = (x.empty() ? 0.0 : x[0]) / n;
    }
}

''')],['C16','C23','C17']),
]
def parse(body,*h):
    return [incd(*h),(DS,PARSE,body)] if h else [(DS,PARSE,body)]
PRE='''    for(std::string line; std::getline(file, line);){
        if(!line.empty() && line[0] == '#'){ continue; }
'''
POST='''        if(row.size() < 2){ continue; }
        t_in.push_back(row[0]);
        data_in.push_back(row[1]);
        if(has_errors && row.size() > 2){ data_err_in.push_back(row[2]); }
        else if(data_in.size() == 1){ has_errors = false; }
        else if(has_errors){ data_err_in.push_back(NAN); }
    }
'''
cs+=[
('strtod',parse(PRE+'''        std::replace(line.begin(), line.end(), ',', ' ');
        std::vector<double> row;
        const char* p = line.c_str();
        for(char* q = nullptr; ; p = q){
            const double v = std::strtod(p, &q);
            if(q == p){ break; }
            row.push_back(v);
        }
'''+POST,'cstdlib'),['C18']),
('istream_iterator',parse(PRE+'''        std::replace(line.begin(), line.end(), ',', ' ');
        std::istringstream in(line);
        const std::vector<double> row{std::istream_iterator<double>(in), std::istream_iterator<double>()};
'''+POST,'iterator'),['C18']),
('tokens',parse(PRE+'''        std::vector<double> row;
        size_t at = 0;
        while((at = line.find_first_not_of(", \\t\\r", at)) != std::string::npos){
            const size_t end = line.find_first_of(", \\t\\r", at);
            const std::string word = line.substr(at, end == std::string::npos ? std::string::npos : end - at);
            std::istringstream in(word);
            double v;
            if(!(in >> v)){ break; }
            row.push_back(v);
            if(end == std::string::npos){ break; }
            at = end;
        }
'''+POST),['C18']),
('stod',parse(PRE+'''        std::replace(line.begin(), line.end(), ',', ' ');
        std::vector<double> row;
        std::string rest = line;
        try {
            while(row.size() < 3){
                size_t used = 0;
                row.push_back(std::stod(rest, &used));
                rest = rest.substr(used);
            }
        } catch(const std::exception&){}
'''+POST,'string','stdexcept'),['C18']),
('sscanf',parse(PRE+'''        std::replace(line.begin(), line.end(), ',', ' ');
        double v[3];
        const int got = std::sscanf(line.c_str(), "%lf %lf %lf", v, v + 1, v + 2);
        const std::vector<double> row(v, v + std::max(got, 0));
'''+POST,'cstdio'),['C18']),
('clearstr',[(DS,'    std::string line;\n    std::vector<double> data_in','    std::string line;\n    std::stringstream linestream;\n    std::vector<double> data_in'),(DS,'                std::stringstream linestream(line);','                linestream.clear();\n                linestream.str(line);')],['C18']),
('isopen',[(DS,'    if(file.fail()){','    if(!file.is_open()){')],['C18']),
('open',[(DS,'    std::ifstream file(filename, std::ios::in);','    std::ifstream file;\n    file.open(filename.c_str());')],['C18']),
('whole',[(DS,'    if(file.good()){\n        while (std::getline(file, line','    std::stringstream all;\n    all << file.rdbuf();\n    {\n        while (std::getline(all, line')],['C18']),
('whole2',[incd('iterator'),(DS,'    if(file.good()){\n        while (std::getline(file, line','    const std::string text((std::istreambuf_iterator<char>(file)), std::istreambuf_iterator<char>());\n    std::istringstream all(text);\n    {\n        while (std::getline(all, line')],['C18']),
('eof',[(DS,"        while (std::getline(file, line, '\\n')) {","        while (file.peek() != std::char_traits<char>::eof()) {\n            std::getline(file, line);")],['C18']),
('cstr',[(DS,"if(line[0] != '#') {","if(line.compare(0, 1, \"#\") != 0) {")],['C18']),
('front',[(DS,"if(line[0] != '#') {","if(line.find('#') != 0) {")],['C18']),
('replace_if',[(DS,"std::replace(line.begin(), line.end(), ',', ' ');","std::replace_if(line.begin(), line.end(), [](char c){ return c == ','; }, ' ');")],['C18']),
('transform',[(DS,"std::replace(line.begin(), line.end(), ',', ' ');","std::transform(line.begin(), line.end(), line.begin(), [](unsigned char c){ return c == ',' || std::isspace(c) ? ' ' : c; });")],['C18']),
('findreplace',[(DS,"std::replace(line.begin(), line.end(), ',', ' ');","for(size_t p = line.find(','); p != std::string::npos; p = line.find(',', p + 1)){ line.replace(p, 1, \" \"); }")],['C18']),
('erase',[incd('algorithm'),(DS,"                std::stringstream linestream(line);","                line.erase(std::remove(line.begin(), line.end(), '\\r'), line.end());\n                std::stringstream linestream(line);")],['C18']),
('fopen',[incd('cstdio'),(DS,'    std::ifstream file(filename, std::ios::in);\n    if(file.fail()){\n        throw BadFileEx;\n    }','    if(FILE* f = std::fopen(filename.c_str(), "r")){ std::fclose(f); }\n    else { throw BadFileEx; }\n    std::ifstream file(filename, std::ios::in);')],['C18']),
]
cs+=[
('sswrite',[(DS,'                std::stringstream linestream(line);','                std::stringstream linestream;\n                linestream << line;')],['C18']),
('sswrite2',[(DS,'                std::stringstream linestream(line);','                std::stringstream linestream;\n                linestream << line.c_str() << std::endl << \' \';')],['C18']),
('oss',[(DS,'                std::stringstream linestream(line);','                std::ostringstream o;\n                for(char c: line){ o << c; }\n                std::istringstream linestream(o.str());')],['C18']),
('seekg',[(DS,'    std::string line;\n    std::vector<double> data_in','    file.seekg(0, std::ios::end);\n    const auto length = file.tellg();\n    file.seekg(0, std::ios::beg);\n    (void) length;\n    std::string line;\n    std::vector<double> data_in')],['C18']),
('exceptions',[(DS,'    std::ifstream file(filename, std::ios::in);\n    if(file.fail()){\n        throw BadFileEx;\n    }','    std::ifstream file;\n    file.exceptions(std::ifstream::failbit);\n    try { file.open(filename); } catch(const std::ios_base::failure&){ throw BadFileEx; }\n    file.exceptions(std::ifstream::goodbit);')],['C18']),
('getlinestr',[(DS,'                std::stringstream linestream(line);','                std::stringstream commas(line);\n                std::string cell, joined;\n                while(std::getline(commas, cell, \',\')){ joined += cell + \' \'; }\n                std::stringstream linestream(joined);')],['C18']),
('regex',[(DS,"if(line.find_first_of(\",\") != std::string::npos){","if(std::count(line.begin(), line.end(), ',') > 0){")],['C18']),
]
if __name__=='__main__': main(cs)

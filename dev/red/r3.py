import subprocess,os,shutil,tempfile,sys
C='sacf/correlator/Correlator.cpp'; D='sacf/datastructure/DataStructure.cpp'; P='sacf/sacf.py'; B='sacf/correlator/correlator_bindings.cpp'
CH='sacf/include/Correlator.h'
M={
'a33-none':('C33',[(B,'.def("getGaussianWeights", &Correlator::getGaussianWeights, py::arg("iterator").none(false))','.def("getGaussianWeights", &Correlator::getGaussianWeights)')]),
'b33-nonectr':('C33',[(C,'    if(ds_in == nullptr){ throw std::invalid_argument("a correlator needs a data structure"); }\n','')]),
'c33-neg':('C33',[(C,'timestep_number < 0 || timestep_number == INT_MAX','timestep_number == INT_MAX')]),
'd33-max':('C33',[(C,'timestep_number < 0 || timestep_number == INT_MAX','timestep_number < 0')]),
'e33-weights':('C33',[(C,'    if(cor_it->selection_indices.size() < cor_it->weights.size()){ throw std::out_of_range("more weights than selected samples"); }\n','')]),
'f33-frac':('C33',[(C,'i < (int) correlation.size(); i++','i < vec_size; i++')]),
'g33-few':('C33',[(C,'    if(cor_it->correlation.size() < N_datasets){ throw std::out_of_range("iterator made for fewer data sets"); }\n','')]),
'h33-few2':('C33',[(C,'    if(col_it->correlation.size() < N_datasets){ throw std::out_of_range("iterator made for fewer data sets"); }\n','')]),
'i33-shift':('C33',[(C,'    if(cor_it->shifted_timeseries.size() < cor_it->selection_indices.size()){ throw std::out_of_range("no shifted times, select first"); }\n','')]),
'j33-stale':('C33',[(C,'    reserveLagSteps(timestep_number + 1);\n    correlation_data._timeseries[timestep_number] = col_it->k;','    correlation_data._timeseries.resize(std::max((size_t) timestep_number + 1, correlation_data._timeseries.size()));\n    correlation_data._timeseries[timestep_number] = col_it->k;\n    reserveLagSteps(timestep_number + 1);')]),
'k33-order':('C33',[(C,'    if(col_it->correlation.size() < N_datasets){ throw std::out_of_range("iterator made for fewer data sets"); }\n    reserveLagSteps(timestep_number + 1);','    correlation_data._timeseries.resize(std::max(timestep_number + 1, num_lag_steps));\n    if(col_it->correlation.size() < N_datasets){ throw std::out_of_range("iterator made for fewer data sets"); }\n    reserveLagSteps(timestep_number + 1);')]),
'l33-poison':('C33',[(C,'    if(cor_it->selection_indices.size() < cor_it->weights.size()){ throw','    if(cor_it->selection_indices.size() < cor_it->weights.size()){ N[0] = 0; throw')]),
'a32-corr':('C32',[(C,'    std::fill(cor_it->correlation.begin(), cor_it->correlation.end(), 0.0);\n','')]),
'b32-dt':('C32',[(C,'    cor_it->delta_t.clear();\n    cor_it->weights.clear();\n    std::fill','    cor_it->weights.clear();\n    std::fill')]),
'c32-w':('C32',[(C,'    cor_it->weights.clear();\n    std::fill','    std::fill')]),
'd32-sh':('C32',[(C,'    startLag(cor_it);\n    cor_it->shifted_timeseries.clear();\n    for(auto const& time_point: *ds->rnormalised_timeseries()){\n        if((time_point + cor_it->k) >=','    startLag(cor_it);\n    for(auto const& time_point: *ds->rnormalised_timeseries()){\n        if((time_point + cor_it->k) >=')]),
'e32-same':('C32',[(C,'    reserveLagSteps(timestep_number + 1);\n    correlation_data._timeseries','    static CorrelationIterator* last = nullptr; static int at = -1; if(last == col_it && at == timestep_number && num_lag_steps > at){ return; } last = col_it; at = timestep_number;\n    reserveLagSteps(timestep_number + 1);\n    correlation_data._timeseries')]),
'f32-grow':('C32',[(C,'    int t_i = 0;\n    for(auto const& value: cor_it->selection_indices){','    int t_i = 0;\n    static size_t most = 0; most = std::max(most, cor_it->selection_indices.size()); cor_it->delta_t.reserve(most);\n    if(cor_it->selection_indices.size() > 3 && cor_it->delta_t.capacity() == cor_it->selection_indices.size() * 2){ cor_it->delta_t.push_back(0); }\n    for(auto const& value: cor_it->selection_indices){')]),
'a34-le':('C34',[(C,'min_lag <= max_lag && !(min_lag + lag_resolution > min_lag && max_lag + lag_resolution > max_lag)','min_lag <= max_lag && lag_resolution <= 0'),(C,'        if(!(k + lag_resolution > k)){ throw','        if(k + lag_resolution < k){ throw')]),
'b34-max':('C34',[(C,'min_lag + lag_resolution > min_lag && max_lag + lag_resolution > max_lag','min_lag + lag_resolution > min_lag')]),
'c34-tie':('C34',[(C,'        if(!(k + lag_resolution > k)){ throw std::invalid_argument("lag_resolution does not lead from min_lag to max_lag"); }\n','')]),
'd34-py':('C34',[(P,'corr.min_lag <= corr.max_lag and not','corr.min_lag < corr.max_lag and not'),(P,'                if not k + lag_resolution > k:','                if k + lag_resolution < k:')]),
'e34-over':('C34',[(C,'min_lag <= max_lag && !(min_lag + lag','!(min_lag > max_lag) && !(min_lag + lag')]),
'f34-exc':('C34',[(P,'            raise ValueError("lag_resolution does not lead from min_lag to max_lag")','            raise RuntimeError("lag_resolution does not lead from min_lag to max_lag")')]),
'g34-wide':('C34',[(C,'min_lag <= max_lag && !(min_lag + lag_resolution > min_lag','min_lag <= max_lag && !(lag_resolution < 1e300 && min_lag + lag_resolution > min_lag')]),
}
names=sys.argv[1:] or list(M)
for n in names:
    p,ed=M[n]
    w=tempfile.mkdtemp(prefix='rt-'); r=w+'/repo'
    subprocess.run(['cp','-a','/repo',r])
    for f,o,x in ed:
        s=open(r+'/'+f).read(); assert s.count(o)>=1,(n,o); open(r+'/'+f,'w').write(s.replace(o,x,1))
    env=dict(os.environ,SACF_REPO=r,SYMX_EVIDENCE=w+'/ev')
    q=subprocess.run(['./check',p],cwd='/verif',env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    print(n,p,'exit',q.returncode,' | '.join(l[:150] for l in q.stdout.splitlines() if 'scenario' in l[:9] or 'ERROR' in l or 'NOTE' in l),flush=True)
    shutil.rmtree(w)

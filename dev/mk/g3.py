import sys; sys.path.insert(0,'/tmp/mk')
from mk import *
d=lambda s: open('/verif/seeded/%s/demo.py'%s).read()
seed('C12-one-more','C12',[(C,'''    int t_i = 0;
    for(auto const& value: cor_it->selection_indices){
        cor_it->delta_t.push_back(std::abs(ds->rnormalised_timeseries()->at(value) - cor_it->shifted_timeseries[t_i]));
        t_i++;
    }''','''    int t_i = 0;
    double shifted = cor_it->selection_indices.empty() ? 0 : cor_it->shifted_timeseries[0];
    for(auto const& value: cor_it->selection_indices){
        cor_it->delta_t.push_back(std::abs(ds->rnormalised_timeseries()->at(value) - shifted));
        t_i++;
        shifted = cor_it->shifted_timeseries[t_i];
    }''')],
 d('C12-one-more'),'a run under a memory checker (the read past the end lands in slack space for most sizes and its value is not used)','one element past the shifted times is read')

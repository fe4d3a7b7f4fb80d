from mk import *
seed('C07-one-pass','C07',[(C,'''                N[j] += (X - ds->mean_data()[j]) * (X - ds->mean_data()[j]);
            }
        }
''','''                N[j] += X * X;
                count++;
            }
        }
        N[j] -= count * ds->mean_data()[j] * ds->mean_data()[j];
'''),(C,'''    int i = 0;
    for(int j = 0; j < N_datasets; j++){
        for(int i = 0; i < M_datapoints; i++){
            double X''','''    for(int j = 0; j < N_datasets; j++){
        int count = 0;
        for(int i = 0; i < M_datapoints; i++){
            double X''')] , '''
import math
from sacf import SACF
t = [0, 1.1, 2.3, 2.9, 4.7, 5.2]
x = [1, -2, 0.5, 3, -1.25, 0.75]
a = SACF(t, x).autocorrelation()[1]
for off in (3.0, 1e4, 1e7, 3e8):
    b = SACF(t, [v + off for v in x]).autocorrelation()[1]
    assert all(abs(p - q) < 1e-3 for p, q in zip(a, b)), off
''','data whose offset is many orders of magnitude above their variation','the sum of squares is taken in one pass (sum of x^2 minus count times mean squared): equal in exact arithmetic, but a large constant added to the data cancels all digits')

seed('C23-raw-products','C23',[(C,"""            double product = (ds->rnormalised_data()->at(ds->getVectorIndex(i, j))) *
                             (ds->rnormalised_data()->at(ds->getVectorIndex(cor_it->selection_indices[i], j)));
            if(!std::isnan(product)){  // ignoring any 'NaN' values, as for the mean and N
                cor_it->correlation[j] += weight * product;
            }
            i++;
        }
""","""            // products of the plain values, the mean is taken out of the sums at the end
            double first = ds->rdata()->at(ds->getVectorIndex(i, j));
            double second = ds->rdata()->at(ds->getVectorIndex(cor_it->selection_indices[i], j));
            if(!std::isnan(first * second)){  // ignoring any 'NaN' values, as for the mean and N
                cor_it->correlation[j] += weight * first * second;
                single += weight * (first + second);
                total += weight;
            }
            i++;
        }
        cor_it->correlation[j] += mean * (mean * total - single);
"""),(C,"""    for(int j = 0; j < N_datasets; j++){
        int i = 0;
        for(auto const& weight: cor_it->weights){""","""    for(int j = 0; j < N_datasets; j++){
        int i = 0;
        double mean = ds->mean_data()[j], single = 0, total = 0;
        for(auto const& weight: cor_it->weights){""")],"""
from sacf import SACF
t = [0, 1.1, 2.3, 2.9, 4.7, 5.2]
x = [1, -2, 0.5, 3, -1.25, 0.75]
def exact(t, x, k):
    m = sum(x) / len(x)
    T = sorted(t)
    al = (T[2] + T[3]) / 2
    s = 0
    for i in range(len(t)):
        u = t[i] + k
        if u > t[-1]: break
        j = min(range(len(t)), key=lambda q: abs(t[q] - u))
        s += (x[i] - m) * (x[j] - m) / (1 + abs(t[j] - u) / al)
    return s / sum((v - m) ** 2 for v in x)
for off, amp in ((0, 1.0), (1e6, 1.0), (1e12, 1e6), (100.0, 1e-6)):
    data = [v * amp + off for v in x]
    for k in (0, 1.25, 2.5):
        l, c = SACF(t, data).autocorrelation(min_lag=k, max_lag=k)
        assert abs(c[-1] - exact(t, x, k)) < 1e-3, (off, amp, k)
""",'data with an offset at least a million times their variation','the mean is removed from the summed products instead of from the values: equal in exact arithmetic, cancelled digits in double arithmetic')
seed('C16-running-mean','C16',[]  if False else [(D,"""PLACEHOLDER""","")],"",'','') if False else None

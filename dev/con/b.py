from run import *
DB='sacf/datastructure/datastructure_bindings.cpp'
def sub(f,a,b): return (f,a,b)
K=['C04','C09','C06','C19']
cs=[
('b-lambda',[sub(CB,'.def("correlations", &Correlator::correlations)','.def("correlations", [](Correlator& c){ return c.correlations(); }, "the correlations")'),
  sub(CB,'.def("deltaT", &Correlator::deltaT)','.def("deltaT", [](Correlator& c, CorrelationIterator* it){ c.deltaT(it); })')],K),
('b-factory',[sub(CB,'.def(py::init<DataStructure*>(), py::keep_alive<1, 2>())','.def(py::init([](DataStructure* d){ return new Correlator(d); }), py::keep_alive<1, 2>())')],K),
('b-factory-unique',[sub(CB,'.def(py::init<DataStructure*>(), py::keep_alive<1, 2>())','.def(py::init([](DataStructure* d){ return std::unique_ptr<Correlator>(new Correlator(d)); }), py::keep_alive<1, 2>())'),(CB,None,'#include <memory>\n')],K),
('b-factory-value',[sub(CB,'.def(py::init<double, double>())','.def(py::init([](double k, double n){ return CorrelationIterator(k, n); }))')],K),
('b-arg',[sub(CB,'.def(py::init<DataStructure*>(), py::keep_alive<1, 2>())','.def(py::init<DataStructure*>(), py::arg("data"), py::keep_alive<1, 2>())'),sub(CB,'.def("findCorrelation", &Correlator::findCorrelation)','.def("findCorrelation", &Correlator::findCorrelation, py::arg("cor_it"), "doc")')],K),
('b-notnone',[sub(CB,'.def(py::init<DataStructure*>(), py::keep_alive<1, 2>())','.def(py::init<DataStructure*>(), py::arg("data").none(false), py::keep_alive<1, 2>())')],K),
('b-prop',[sub(CB,'.def_readonly("correlation", &CorrelationIterator::correlation)','.def_property_readonly("correlation", [](const CorrelationIterator& c) -> const std::vector<double>& { return c.correlation; })')],K),
('b-shared',[sub(DB,'py::class_<DataStructure>(ds, "DataStructure")','py::class_<DataStructure, std::shared_ptr<DataStructure>>(ds, "DataStructure")'),(DB,None,'#include <memory>\n')],['C15','C06']),
('b-cref',[sub(DB,'.def(py::init<std::vector<double>*, std::vector<double>* >())','.def(py::init([](std::vector<double> t, std::vector<double> x){ return new DataStructure(&t, &x); }))')],['C15','C06','C16']),
('b-valueerror',[sub(DB,'py::register_exception<BadDataInputException>(ds, "BadDataInputException");','py::register_exception<BadDataInputException>(ds, "BadDataInputException", PyExc_ValueError);')],['C15','C16']),
('b-doc',[sub(DB,'    py::class_<DataStructure>','    ds.doc() = "data";\n    ds.attr("__version__") = "1";\n    py::class_<DataStructure>')],['C15']),
('b-template',[sub(CB,'PYBIND11_MODULE(correlator','template <typename C> static void options(py::class_<C>& c){\n    c.def_property("max_lag", &C::getMaxLag, &C::setMaxLag).def_property("min_lag", &C::getMinLag, &C::setMinLag);\n}\n\nPYBIND11_MODULE(correlator'),sub(CB,'    py::class_<Correlator>(c, "Correlator")\n','    py::class_<Correlator> correlator(c, "Correlator");\n    options(correlator);\n    correlator\n'),sub(CB,'        .def_property("max_lag", &Correlator::getMaxLag, &Correlator::setMaxLag)\n        .def_property("min_lag", &Correlator::getMinLag, &Correlator::setMinLag)\n','')],K),
('b-policy',[sub(CB,'.def("values", &Correlator::values)','.def("values", &Correlator::values, py::return_value_policy::copy)')],K),
('b-pylist',[sub(CB,'.def("lag_timeseries", &Correlator::lag_timeseries)','.def("lag_timeseries", [](Correlator& c){ return py::cast(c.lag_timeseries()); })')],K),
('b-import',[sub(CB,'    py::class_<CorrelationIterator>','    py::module::import("sacf.datastructure");\n    py::class_<CorrelationIterator>')],K),
('b-repr',[sub(DB,'        .def("data", &DataStructure::data_2d)','        .def("__len__", [](const DataStructure& d){ return d.M_datapoints; })\n        .def("__repr__", [](const DataStructure& d){ return "<DataStructure " + std::to_string(d.M_datapoints) + ">"; })\n        .def("data", &DataStructure::data_2d)')],['C15','C06']),
('b-gil',[sub(CB,'.def("calculateStandardCorrelation", &Correlator::calculateStandardCorrelation)','.def("calculateStandardCorrelation", &Correlator::calculateStandardCorrelation, py::call_guard<py::gil_scoped_release>())')],K),
('p-float',[sub(PY,'            corr.max_lag = max_lag','            corr.max_lag = float(max_lag)')],['C09','C04']),
('p-setattr',[sub(PY,'''        if max_lag is not None:
            corr.max_lag = max_lag
        if min_lag is not None:
            corr.min_lag = min_lag
        if lag_resolution is not None:
            corr.lag_resolution = lag_resolution
        if alpha is not None:
            corr.alpha = alpha
''','''        options = dict(max_lag=max_lag, min_lag=min_lag, lag_resolution=lag_resolution, alpha=alpha)
        for name, value in options.items():
            if value is not None:
                setattr(corr, name, value)
''')],['C09','C04','C10']),
('p-module-gen',[sub(PY,'''        def lag_generator(min_lag, max_lag, lag_resolution):
            k = min_lag
            is_positive = False
            while k <= max_lag:
                if k == 0:
                    is_positive = True
                if k > 0 and not is_positive:
                    is_positive = True
                    yield 0
                yield k
                k += lag_resolution

''',''),sub(PY,'class SACF:','''def lag_generator(min_lag, max_lag, lag_resolution):
    """All lags of the grid, with zero in between if the grid steps over it"""
    lags = []
    k = min_lag
    while not k > max_lag:
        if lags and lags[-1] < 0 < k or not lags and k > 0:
            lags.append(0)
        lags.append(k)
        k = k + lag_resolution
    return lags


class SACF:''')],['C09','C04']),
('p-takewhile',[sub(PY,'''            k = min_lag
            is_positive = False
            while k <= max_lag:
                if k == 0:
                    is_positive = True
                if k > 0 and not is_positive:
                    is_positive = True
                    yield 0
                yield k
                k += lag_resolution
''','''            from itertools import accumulate, chain, repeat, takewhile

            zero_done = False
            for k in takewhile(lambda lag: lag <= max_lag, accumulate(chain([min_lag], repeat(lag_resolution)))):
                if k >= 0 and not zero_done:
                    zero_done = True
                    if k != 0:
                        yield 0
                yield k
''')],['C09','C04']),
('p-squeeze',[sub(PY,'''        if return_correlator:
            return (
                corr.lag_timeseries(),
                corr.correlations()
                if len(corr.correlations()) > 1.0
                else corr.correlations()[0],
                corr,
            )
        else:
            return (
                corr.lag_timeseries(),
                corr.correlations()
                if len(corr.correlations()) > 1.0
                else corr.correlations()[0],
            )''','''        result = (corr.lag_timeseries(), self._squeeze(corr.correlations()))
        return result + (corr,) if return_correlator else result

    @staticmethod
    def _squeeze(correlations):
        if len(correlations) == 1:
            (correlations,) = correlations
        return correlations
''')],['C09','C06','C19']),
('p-dispatch',[sub(PY,'            SELECTION_FUNCTIONS[selection_function](corr, col_it)','            select(col_it)'),sub(PY,'            WEIGHT_FUNCTIONS[weight_function](corr, col_it)','            weigh(col_it)'),sub(PY,'        i = -1  # no lags','        from functools import partial\n\n        select = partial(SELECTION_FUNCTIONS[selection_function], corr)\n        weigh = WEIGHT_FUNCTIONS[weight_function].__get__(corr)\n        i = -1  # no lags')],['C09','C10']),
('p-getattr',[sub(PY,'            SELECTION_FUNCTIONS[selection_function](corr, col_it)','            getattr(corr, SELECTION_FUNCTIONS[selection_function].__name__)(col_it)')],['C09']),
('p-names',[sub(PY,'''    "fast": Correlator.fastSelectionFunctionIdx,
    "natural": Correlator.naturalSelectionFunctionIdx,''','''    "fast": "fastSelectionFunctionIdx",
    "natural": "naturalSelectionFunctionIdx",'''),sub(PY,'            SELECTION_FUNCTIONS[selection_function](corr, col_it)','            getattr(corr, SELECTION_FUNCTIONS[selection_function])(col_it)')],['C09']),
('p-typing',[(PY,None,'from dataclasses import dataclass, field\nfrom enum import Enum\nfrom typing import List, NamedTuple, Optional\nimport logging\n\nLOG = logging.getLogger(__name__)\n\n\nclass Selection(str, Enum):\n    FAST = "fast"\n    NATURAL = "natural"\n\n\n@dataclass\nclass Options:\n    min_lag: Optional[float] = None\n    max_lag: Optional[float] = None\n    lag_resolution: Optional[float] = None\n    alpha: Optional[float] = None\n\n    def apply(self, corr):\n        for key, value in vars(self).items():\n            if value is not None:\n                setattr(corr, key, value)\n\n'),sub(PY,'        self.set_up_correlation(corr, min_lag, max_lag, lag_resolution, alpha)','        Options(min_lag, max_lag, lag_resolution, alpha).apply(corr)\n        LOG.debug("%s lags", max_lag)'),sub(PY,'        if selection_function == "natural" and weight_function','        if Selection(selection_function) is Selection.NATURAL and weight_function')],['C09','C04']),
('p-log',[sub(PY,'            corr.calculateStandardCorrelation()','            corr.calculateStandardCorrelation()\n            message = SACF_LOG_MESSAGE.format(no_data=corr.M_datapoints, no_lag_points=len(corr.lag_timeseries()), lag_resolution=corr.lag_resolution)\n            assert message')],['C09']),
('p-property',[sub(PY,'class SACF:','class SACF:\n    __slots__ = ("_data",)\n\n    @property\n    def data(self):\n        return self._data\n\n    @data.setter\n    def data(self, value):\n        self._data = value\n')],['C06','C19','C18']),
('p-star',[sub(PY,'''            if errors is None:
                self.data = DataStructure(timeseries, values)
            else:
                self.data = DataStructure(timeseries, values, errors)''','''            arguments = [timeseries, values] + ([] if errors is None else [errors])
            self.data = DataStructure(*arguments)''')],['C06','C15','C16']),
('p-list',[sub(PY,'''            if errors is None:
                self.data = DataStructure(timeseries, values)
            else:
                self.data = DataStructure(timeseries, values, errors)''','''            times = list(timeseries)
            self.data = DataStructure(times, values) if errors is None else DataStructure(times, values, errors)''')],['C06','C15','C16']),
('p-isinf',[sub(PY,'        corr = Correlator(self.data)','        import math\n        if max_lag is not None and math.isnan(max_lag):\n            raise ValueError("max_lag")\n        corr = Correlator(self.data)')],['C09']),
]
if __name__=='__main__': main(cs)

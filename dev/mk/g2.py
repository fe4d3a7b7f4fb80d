import sys; sys.path.insert(0,'/tmp/mk')
exec(open('/tmp/mk/g.py').read().split("again('C13-skip'")[0])
K='.def(py::init<DataStructure*>(), py::keep_alive<1, 2>())'
again('C19-iterator-owner','C19',[(B,K,'.def(py::init<DataStructure*>(), py::keep_alive<2, 1>())')])

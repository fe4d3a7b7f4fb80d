"""token-level mutants of the sources -> /tmp/mut/all.json"""
import re, json, hashlib
R='/repo/'
FILES=['sacf/correlator/Correlator.cpp','sacf/datastructure/DataStructure.cpp','sacf/sacf.py','sacf/correlator/correlator_bindings.cpp','sacf/datastructure/datastructure_bindings.cpp','sacf/include/Correlator.h']
RULES=[(r'(?<![<>=!\-])<(?![<=])',['<=','>']),(r'<=',['<']),(r'(?<![<>=\-])>(?![>=])',['>=','<']),(r'>=',['>']),(r'==',['!=']),(r'!=',['==']),
 (r'&&',['||']),(r'\|\|',['&&']),(r'(?<![\+\w"])\+(?![\+=])|(?<=\s)\+(?=\s)',['-']),(r'(?<=[\s\w\)])-(?![\-=>])(?=[\s\w\(])',['+']),(r'\+=',['-=','=']),(r'\*=',['/=','=']),(r'(?<=\s)\*(?=\s)',['/']),(r'(?<=\s)/(?=\s)',['*']),
 (r'\b0\b',['1']),(r'\b1\b',['0','2']),(r'\b2\b',['1','3']),(r'\b0\.0\b',['1.0']),(r'\bback\(\)',['front()']),(r'\bbegin\(\)',['end()']),
 (r'\bN_datasets\b',['M_datapoints']),(r'\bM_datapoints\b',['N_datasets']),(r'\bmin\b',['max']),(r'\bmax\b',['min']),(r'lower_bound',['upper_bound']),
 (r'\bdouble\b',['float','int']),(r'std::abs',['']),(r'rnormalised_data',['rdata']),(r'\brdata',['rnormalised_data']),(r'rnormalised_timeseries',['rtimeseries']),
 (r'!std::isnan',['std::isnan','']),(r'\(i, j\)',['(j, i)']),(r'\btrue\b|\bTrue\b',['FLIP']),(r'\bfalse\b|\bFalse\b',['FLIP']),(r'max_lag',['min_lag']),(r'min_lag',['max_lag']),
 (r'\bis not None',['']),(r'\bnot is_positive',['is_positive','True']),(r'!is_positive',['is_positive','true']),(r'\band\b',['or']),(r'is None',['is not None']),
 (r'\bi\b(?=[\],\)])',['i+1','0']),(r'\bj\b(?=[\],\)])',['0']),(r'"natural"',['"fast"']),(r'"fractional"',['"gaussian"']),(r'getFractionWeights',['getGaussianWeights']),
 (r'py::keep_alive<1, 2>\(\)',['py::keep_alive<2, 1>()']),(r'\.size\(\)',['.size() - 1','.size() + 1']),(r'\.empty\(\)',['.size() == 1']),(r'\bif ?\(',['if (false && ','if (true || ']),
]
out=[]
for f in FILES:
    s=open(R+f).read()
    lines=s.split('\n')
    pos=0
    incomment=False
    for ln,l in enumerate(lines):
        st=l.strip()
        if '/*' in st: incomment=True
        skip=incomment or st.startswith(('//','#','"""','"█','"╚','"-','"N','"L','from','import','Args','Returns')) or not st or 'printf' in st
        if '*/' in st: incomment=False
        if skip: continue
        code=l.split('//')[0]
        for pat,reps in RULES:
            for m in re.finditer(pat,code):
                for rep in reps:
                    r=rep
                    if rep=='FLIP':
                        r={'true':'false','false':'true','True':'False','False':'True'}[m.group()]
                    new=code[:m.start()]+r+code[m.end():]+l[len(code):]
                    out.append((f,ln,l,new))
        if st.endswith(';') and not re.match(r'(double|int|long|std::|auto|bool|return|char|const|void|explicit|#|class|struct|float|namespace|virtual|public)',st):
            out.append((f,ln,l,l[:len(l)-len(l.lstrip())]+';'))
        if f.endswith('.py') and re.match(r'(corr\.|yield|k \+=|is_positive =|corr = |self\.)',st):
            out.append((f,ln,l,l[:len(l)-len(l.lstrip())]+'pass'))
seen=set(); res=[]
for f,ln,a,b in out:
    if a==b: continue
    h=hashlib.md5(('%s%d%s'%(f,ln,b)).encode()).hexdigest()[:8]
    if h in seen: continue
    seen.add(h); res.append(dict(id=h,file=f,line=ln,old=a,new=b))
json.dump(res,open('/tmp/mut/all.json','w'),indent=0)
print(len(res))

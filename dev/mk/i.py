import sys; sys.path.insert(0,'/tmp/mk')
from mk import *
import json
m=json.load(open('/verif/seeded/C04-last-lag-drop/meta.json')); d=open('/verif/seeded/C04-last-lag-drop/demo.py').read()
seed('C04-last-lag-drop','C04',[(P,'''                k += lag_resolution
''','''                if k < 0 and k + lag_resolution > max_lag:
                    # the last step ends on max_lag
                    lag_resolution = max_lag - k or lag_resolution
                k += lag_resolution
''')],d,m['needs'],m['what_it_breaks'])

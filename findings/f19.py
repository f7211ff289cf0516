from lib import *
# a hunt selects a victim which has just closed
from glompo.core.manager import GloMPOManager
from glompo.opt_selectors import CycleSelector
from glompo.convergence import MaxFuncCalls, MaxOptsStarted
from glompo.hunters import MinFuncCalls
from glompo.optimizers.random import RandomOptimizer
import tempfile, os, gc, time
import numpy as np
class Die(RandomOptimizer):
    def minimize(self, function, x0, bounds, callbacks=None, **kw):
        if self.opt_id==1:
            time.sleep(1)
            for i in range(8): function(np.array([1.])); 
            return
        function(np.array([.5])); time.sleep(8)
        self.message_manager(0,'a')
m=GloMPOManager()
m.setup(lambda x:float(x[0]),[(0,1)],CycleSelector((Die,{},{}), allow_spawn=lambda mm: mm.o_counter<2),working_dir=tempfile.mkdtemp(),backend='processes',max_jobs=2,split_printstreams=False,killing_conditions=MinFuncCalls(5),hunt_frequency=1,convergence_checker=MaxFuncCalls(100))
o=m._process_results
sj=m._start_new_job
def sn(*a):
    gc.collect(); gc.collect(); sj(*a)
m._start_new_job=sn
def pr(n):
    time.sleep(2); gc.collect()
    return o(n)
m._process_results=pr
warnings.simplefilter('always')
r=m.start_manager(); print(r)

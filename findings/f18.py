from lib import *
# optimizer process dies with an unread manager signal in its pipe
from glompo.core.manager import GloMPOManager
from glompo.opt_selectors import CycleSelector
from glompo.convergence import MaxFuncCalls, MaxOptsStarted
from glompo.optimizers.random import RandomOptimizer
import tempfile, os, gc, time
class Die(RandomOptimizer):
    def minimize(self, function, x0, bounds, callbacks=None, **kw):
        if self.opt_id==1:
            time.sleep(2); os._exit(0)
        time.sleep(4)
        self.message_manager(0,'a')
m=GloMPOManager()
m.setup(lambda x:0,[(0,1)],CycleSelector((Die,{},{}), allow_spawn=lambda mm: mm.o_counter<2),working_dir=tempfile.mkdtemp(),backend='processes',max_jobs=2,split_printstreams=False,convergence_checker=MaxFuncCalls(100))
o=m._process_results
sj=m._start_new_job
def sn(*a):
    gc.collect(); gc.collect(); sj(*a)
m._start_new_job=sn
def pr(n):
    gc.collect()
    m._optimizer_packs[1].signal_pipe.send((4,1,2)) if m._optimizer_packs.get(1) and m._optimizer_packs[1].process.is_alive() else 0
    return o(n)
m._process_results=pr
warnings.simplefilter('always')
r=m.start_manager(); print(r)

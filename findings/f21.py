from lib import *
# last optimizer finishes while a checkpoint is made, spawning already off
from glompo.core.manager import GloMPOManager
from glompo.core.checkpointing import CheckpointingControl
from glompo.opt_selectors import CycleSelector
from glompo.convergence import MaxFuncCalls, MaxOptsStarted
from glompo.optimizers.random import RandomOptimizer
import tempfile, os, gc, time, threading
import numpy as np
d=tempfile.mkdtemp()
class O(RandomOptimizer):
    def minimize(self, function, x0, bounds, callbacks=None, **kw):
        function(np.array([.5])); time.sleep(3)
        self.message_manager(0,'conv')
m=GloMPOManager()
m.setup(lambda x:float(x[0]),[(0,1)],CycleSelector((O,{},{}),allow_spawn=lambda m: m.o_counter<1),working_dir=d,backend='threads',max_jobs=2,split_printstreams=False,convergence_checker=MaxFuncCalls(1000),checkpoint_control=CheckpointingControl(checkpoint_iter_frequency=0,checkpointing_dir=d+'/c'))
r=m.start_manager(); print(r)
sys.stdout.flush()
m._mp_manager.shutdown(); 

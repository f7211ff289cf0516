from lib import *
# failed checkpoint with raise_checkpoint_fail leaves optimizers paused
from glompo.core.manager import GloMPOManager
import glompo.core.manager as gm
from glompo.core.checkpointing import CheckpointingControl
from glompo.opt_selectors import CycleSelector
from glompo.convergence import MaxFuncCalls, MaxOptsStarted
from glompo.optimizers.random import RandomOptimizer
import tempfile, os, gc, time, threading
import numpy as np
import tarfile
def bad(*a,**k): raise tarfile.TarError('x')
d=tempfile.mkdtemp()
gm.tarfile.open=bad
m=GloMPOManager()
m.setup(lambda x:time.sleep(.01) or float(x[0]),[(0,1)],CycleSelector((RandomOptimizer,{'iters':10000},{})),working_dir=d,backend='threads',max_jobs=2,split_printstreams=False,convergence_checker=MaxFuncCalls(1000),checkpoint_control=CheckpointingControl(checkpoint_iter_frequency=20,checkpointing_dir=d+'/c',raise_checkpoint_fail=True))
r=m.start_manager(); print(r)
time.sleep(2)
print([ (t.name,t.is_alive()) for t in threading.enumerate() if 'Opt' in t.name])
sys.stdout.flush(); m._mp_manager.shutdown(); os._exit(0)

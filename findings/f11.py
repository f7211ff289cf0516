from lib import *
from glompo.core.manager import GloMPOManager
from glompo.opt_selectors import CycleSelector
from glompo.optimizers.random import RandomOptimizer
import tempfile
m=GloMPOManager(); s=CycleSelector((RandomOptimizer,{'backend':'processes'},{}))
m.setup(lambda x:0,[(0,1)],s,working_dir=tempfile.mkdtemp(),backend='processes',max_jobs=3)
for _ in range(2): print(m._setup_new_optimizer(3).optimizer._backend, s.avail_opts)

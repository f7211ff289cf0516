# optimizer's completion signal arrives after its queue sentinel has been consumed
import sys; sys.path.insert(0,'/repo')
import warnings, time
from glompo.core.manager import GloMPOManager
from glompo.opt_selectors import CycleSelector
from glompo.convergence import MaxFuncCalls, MaxOptsStarted
from glompo.optimizers.random import RandomOptimizer
import glompo.core.manager as m
from glompo.common.namedtuples import IterationResult
import tempfile
d=tempfile.mkdtemp()
class Slow(RandomOptimizer):
    def minimize(self, function, x0, bounds, callbacks=None, **kw):
        import numpy as np
        if self.opt_id==1:
            function(np.array([0.,0.]))
            time.sleep(3)
            return
        function(np.array([1.,1.]))
        self.stop_called=True
        # sleep so that manager passes _check_signals then finish inside _process_results block
        return super().minimize(function,x0,bounds)
mgr=GloMPOManager()
mgr.setup(lambda x: float((x**2).sum()), [(0,1)]*2, CycleSelector((Slow,{},{})), working_dir=d, max_jobs=2, backend='threads', convergence_checker=MaxFuncCalls(100), split_printstreams=False)
orig=mgr._process_results
with warnings.catch_warnings():
    warnings.simplefilter('always')
    r=mgr.start_manager()
print(r.stats)

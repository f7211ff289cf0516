from lib import *
from glompo.opt_selectors import ChainSelector
from glompo.optimizers.random import RandomOptimizer
class M: f_counter=0
s=ChainSelector(RandomOptimizer,RandomOptimizer,fcall_thresholds=[10,20])
for M.f_counter in (0,12,25,30): print(s.select_optimizer(M,None,5))

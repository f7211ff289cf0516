from lib import *
from glompo.core.optimizerlogger import BaseLogger
from glompo.hunters import ParameterDistance
from glompo.common.namedtuples import IterationResult as I
import datetime
l=BaseLogger(False)
for i in (1,2,3):
    l.add_optimizer(i,'a',datetime.datetime.now()); l.add_iter_history(i)
l.put_iteration(I(1,[0.,0.],5,())); l.put_iteration(I(2,[.5,.5],1,())); l.put_iteration(I(3,[.5,.5],9,()))
l.clear_cache(1)
print(l.n_optimizers, ParameterDistance([(0,1)]*2,0.1,True)(l,2,3), ParameterDistance([(0,1)]*2,0.1,True)(l,3,2))

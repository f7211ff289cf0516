from lib import *
from glompo.core.optimizerlogger import BaseLogger
from glompo.generators import ExploitExploreGenerator, IncumbentGenerator
from glompo.common.namedtuples import *
import datetime
class M: f_counter=3; opt_log=BaseLogger(False); result=Result([],float('inf'),{},{})
l=M.opt_log
print(IncumbentGenerator([(0,1)]*2).generate(M))
for i in (1,2):
    l.add_optimizer(i,'a',datetime.datetime.now()); l.add_iter_history(i)
    l.put_iteration(IterationResult(i,[.1*i,0.],5+i,()))
l.add_optimizer(3,'a',datetime.datetime.now())
print(ExploitExploreGenerator([(0,1)]*2,100).generate(M))

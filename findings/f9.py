from lib import *
sys.getsizeof=lambda *a: 10
from glompo.core.optimizerlogger import FileLogger
from glompo.common.namedtuples import IterationResult as I
import datetime,tempfile,os
d=tempfile.mkdtemp(); os.chdir(d)
l=FileLogger(2,10,True); l.open('a.h5','w','x')
l.add_optimizer(1,'a',datetime.datetime.now()); l.add_iter_history(1); l.put_iteration(I(1,[0.,0.],5,()))
l.flush()
l.checkpoint_save(d)
l.close(); os.remove('a.h5')
l2=FileLogger.checkpoint_load(d+'/opt_log'); l2.open('a.h5','w','x')
if not l2.has_iter_history(1): l2.add_iter_history(1)
l2.put_iteration(I(1,[0.,0.],5,())); l2.put_metadata(1,'a',2); l2.flush(); l2.add_optimizer(2,'a',datetime.datetime.now()); print('ok', l2.n_optimizers)
l2.close()

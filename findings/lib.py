import sys; sys.path.insert(0,'/repo')
import warnings; warnings.simplefilter('ignore')
import logging

"""Regenerates sa/vocab.json: the functions known when the rules were written. Run by hand only, never by a check."""
import json, sys
sys.path.insert(0, '/verif')
from sa.project import Project
json.dump(sorted(f.qual for f in Project().all_funcs()), open('/verif/sa/vocab.json', 'w'), indent=0)

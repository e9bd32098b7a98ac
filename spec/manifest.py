#!/usr/bin/env python3
"""Writes MANIFEST.json from the job tables (run: python3 spec/manifest.py)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, here)
import jobs, props
NA = getattr(jobs, 'NOT_APPLICABLE', {})
checks, na = [], []
for p in props.P:
    i = p['id']
    if i in jobs.PROPS:
        checks.append(dict(property=i, quick_cmd='python3 vrun.py %s' % i, thorough_cmd='python3 vrun.py %s --tier thorough' % i,
            technique='symbolic execution of the LLVM IR of the real code with Z3 deciding the assertions (bounded)', level='model_checking',
            level_note='Holds for every value within: %s. Outside: %s. Trusts the engine in engine/, the MPI and libstdc++ models in model/ (checked against real MPI runs of solver-chosen paths on every run) and Z3.' % (jobs.PROPS[i]['bounds'], jobs.PROPS[i]['outside'])))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no harness yet')))
json.dump(dict(version=1, setup_cmd='make -s -C engine', checks=checks, not_applicable=na,
  notes='No hooks in /repo: the harnesses use the public API. vrun.py recompiles the repository sources to IR on every run.'), open(os.path.join(here, '..', 'MANIFEST.json'), 'w'), indent=1)

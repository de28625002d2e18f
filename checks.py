import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'meta'))
import core, seq, media
PROPS = {}
for m in (core, seq, media):
    PROPS.update(m.P)
BUILDS = {
 'bits': dict(mode='asan', src=['bits.cpp'], repo=['core']),
 'conc1': dict(mode='vs', src=['conc1.cpp'], repo=['core']),
 'seq1': dict(mode='asan', src=['seq1.cpp'], repo=['core', 'b64', 'crc']),
 'seq2': dict(mode='asan', src=['seq2.cpp'], repo=['core']),
 'conc2': dict(mode='vs', src=['conc2.cpp'], repo=['core']),
}
for m in (core, seq, media):
    BUILDS.update(getattr(m, 'BUILDS', {}))
CHECKS = {k: dict(builds=v['builds'], level=v.get('level', 'model_checking'), rule=v['rule'], bounds=v['bounds'], assumptions=v['assume']) for k, v in PROPS.items() if v.get('builds')}

# run once under Jython at the pinned commit: the published patterns, frozen
import sys, json
sys.path.insert(0, '/repo')
import bglib.protocol.fibs as f
out = {}
for cls in (f.LoginState, f.MOTDState, f.RunState):
  out[cls.__name__] = dict((k, v) for k, v in cls.__dict__.items() if k[:4] in ('FIBS', 'CLIP'))
json.dump(out, open(sys.argv[1], 'w'), indent=0, sort_keys=True)

"""One-off: collect realistic AnyDice programs (from the repository's fetch lists) that run in reasonable time."""
import json, sys, os, importlib.util, multiprocessing as mp, time
sys.path.insert(0, '/verif')
from monitor import core
core.load_library()
from monitor import taps

def work(p):
  import signal
  src, = p
  signal.alarm(6)
  best = None
  for flags in ({'COMPILER_FLAG_NON_LOCAL_SCOPE': True, 'COMPILER_FLAG_OPERATOR_ON_INT': True},):
    t = time.time()
    try:
      core.submodule('settings').settings_reset()
      code, outs = taps.run_program(src, flags)
      return dict(src=src, flags=flags, time=time.time() - t, outs=len(outs))
    except BaseException as e:
      best = repr(e)
  return best

def run(p):
  q = mp.Queue()
  def f(): q.put(work(p))
  pr = mp.Process(target=f); pr.start()
  try: r = q.get(timeout=8)
  except Exception: r = 'timeout'
  pr.kill()
  return r

spec = importlib.util.spec_from_file_location('fi', '/repo/test/autoouts/fetch_in.py'); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
progs = [('lib%d' % i, c if isinstance(c, str) else c[0]) for i, c in enumerate(m.code_library)]
d = json.load(open('/repo/test/autoouts/fetch_auto_in.json'))['data']
progs += [('auto-' + k, v['prog']) for k, v in d.items()]
out = []
for name, src in progs:
  r = run((src,))
  if isinstance(r, dict) and r['time'] < 2.5:
    out.append(dict(name=name, **{k: r[k] for k in ('src', 'flags')}))
  else:
    print(name, r if isinstance(r, str) else r['time'])
json.dump(out, open('/verif/corpus/programs.json', 'w'), indent=1)
print(len(out), 'of', len(progs))

"""Taps: wrap entry points of the loaded library for the duration of one execution."""
import contextlib
import json
import os

from . import core

CORPUS = os.path.join(core.VERIF, 'corpus', 'programs.json')
_corpus = None


def corpus():
  global _corpus
  if _corpus is None:
    with open(CORPUS) as f:
      _corpus = json.load(f)
  return _corpus


@contextlib.contextmanager
def tap_dice(on_die):
  """call on_die(rv) right after every die is constructed"""
  RV = core.lib.RV
  orig = RV.__init__

  def wrapped(self, *a, **k):
    orig(self, *a, **k)
    on_die(self)
  RV.__init__ = wrapped
  try:
    yield
  finally:
    RV.__init__ = orig


def run_program(src, flags=None, safe=False):
  """compile and run an AnyDice program -> list of (value, label)"""
  pe = core.submodule('parser.parse_and_exec')
  code = pe.compile_anydice(src, dict(flags) if flags else None)
  return code, run_code(code, safe)


def run_code(code, safe=False):
  pe = core.submodule('parser.parse_and_exec')
  outs = (pe.safe_exec if safe else pe.unsafe_exec)(code)
  return [(a[0], k.get('named')) for a, k in outs]


def run_corpus_case(case, on_die):
  progs = corpus()
  p = progs[case.index % len(progs)]
  with tap_dice(on_die):
    code, outs = run_program(p['src'], p.get('flags'))
  return p['name'], [v for v, _ in outs]

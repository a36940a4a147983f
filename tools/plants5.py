SEEDS = []


def S(**k):
    SEEDS.append(k)


IMP = "import numpy as np, sys, os, tempfile\nfrom emva1288.process import routines as R\n"
ROU = 'process/routines.py'
S(id='c27-array-digits', property='C27', file=ROU,
  edits=[("                a = [str(x) for x in d[k]]", "                a = ['{:.8g}'.format(x) for x in d[k]]")],
  needs='an array with a number of more than eight digits', what='array elements lose digits when written',
  demo=IMP+"""
a = np.array([1.0, 123456789.25])
g = R.xml_to_dict(R.dict_to_xml({'s': {'e': {'data': {'x': a}}}}))
sys.exit(0 if np.array_equal(g['s']['e']['data']['x'], a) else 1)
""")
S(id='c27-zero-missing', property='C27', file=ROU,
  edits=[("            if isinstance(d[k], dict):", "            if d[k] == 0 and isinstance(d[k], (int, float)):\n                d[k] = None\n                e.text = str(d[k])\n            elif isinstance(d[k], dict):")],
  needs='a value that is exactly zero', what='a zero is written as a missing value',
  demo=IMP+"""
g = R.xml_to_dict(R.dict_to_xml({'s': {'e': {'value': 0.0}, 'f': {'value': 2.0}}}))
sys.exit(0 if g['s']['e']['value'] == 0 and g['s']['e']['value'] is not None else 1)
""")
S(id='c28-small-numbers', property='C28', file=ROU,
  edits=[("int(np.floor(np.log10(np.abs(v))))", "int(np.log10(np.abs(v)))")],
  needs='values below one that differ in the seventh digit only', what='numbers below one are compared to six digits',
  demo=IMP+"""
x, y = [R.dict_to_xml({'s': {'e': {'value': v}}}) for v in (0.01234567, 0.01234568)]
sys.exit(0 if 'FAIL' in R.compare_xml(x, y) else 1)
""")
S(id='c28-last-array', property='C28', file=ROU,
  edits=[("                        if not r:\n                            break\n", "                        if not r and len(a1[k]) != len(a2[k]):\n                            break\n")],
  needs='two arrays of the same lengths, the first one with a difference', what='only the last array decides',
  demo=IMP+"""
f = lambda a: R.dict_to_xml({'s': {'e': {'data': {'x': np.array([a, 2.]), 'y': np.array([3.])}}}})
sys.exit(0 if 'FAIL' in R.compare_xml(f(1.), f(1.5)) else 1)
""")
S(id='c28-first-file', property='C28', file=ROU,
  edits=[("            methodnames = set(m1) | set(m2)\n", "            methodnames = set(m1)\n"),],
  needs='an entry present in the second file only', what='the entry is not listed',
  demo=IMP+"""
x = R.dict_to_xml({'s': {'e': {'value': 1.}}})
y = R.dict_to_xml({'s': {'e': {'value': 1.}, 'f': {'value': 2.}}})
sys.exit(0 if 'FAIL' in R.compare_xml(x, y) else 1)
""") if 0 else None
S(id='c28-first-file', property='C28', file=ROU,
  edits=[("        methodnames = set(m1) | set(m2)\n", "        methodnames = set(m1)\n")],
  needs='an entry present in the second file only', what='the entry is not listed',
  demo=IMP+"""
x = R.dict_to_xml({'s': {'e': {'value': 1.}}})
y = R.dict_to_xml({'s': {'e': {'value': 1.}, 'f': {'value': 2.}}})
sys.exit(0 if 'FAIL' in R.compare_xml(x, y) else 1)
""")
S(id='c29-stale-info', property='C29', file=ROU,
  edits=[("    d = cls_1288_info(obj.__class__)\n    for attribute in d.keys():",
          "    d = _info.setdefault(obj.__class__, None) or cls_1288_info(obj.__class__)\n    _info[obj.__class__] = d\n    for attribute in d.keys():"),
         ("def _sections_first(dct):", "_info = {}\n\n\ndef _sections_first(dct):")],
  needs='a quantity that is a dictionary once and a number or missing another time, two results of the same class',
  what='the former data stays with the new value; earlier results change with later ones',
  demo=IMP+"""
class T(object):
    v = None
    @property
    def q(self):
        '''.. emva1288::
            :Section: s
        '''
        return self.v
a, b = T(), T()
a.v, b.v = {'x': 1}, 3
R.obj_to_dict(a)
sys.exit(0 if 'data' not in R.obj_to_dict(b)['q'] else 1)
""")
S(id='c29-colon', property='C29', file=ROU,
  edits=[("line.split(':', 2)", "line.split(':')")],
  needs='a description that contains a colon', what='its metadata is dropped',
  demo=IMP+"""
class T(object):
    @property
    def q(self):
        '''.. emva1288::
            :Section: s
            :Short: ratio a:b
        '''
        return 1
sys.exit(0 if R.obj_to_dict(T())['q'].get('short') == 'ratio a:b' else 1)
""")
S(id='c29-missing-value', property='C29', file=ROU,
  edits=[("        else:\n            d[attribute]['value'] = val\n", "        elif val is not None:\n            d[attribute]['value'] = val\n")],
  needs='a quantity that is not available (None)', what='the entry has no value',
  demo=IMP+"""
class T(object):
    @property
    def q(self):
        '''.. emva1288::
            :Section: s
        '''
sys.exit(0 if 'value' in R.obj_to_dict(T())['q'] else 1)
""")

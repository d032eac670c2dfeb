"""setup_cmd: nothing is built; check that everything needed is there."""
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import numpy, tables, z3, cvc5      # noqa
print('numpy', numpy.__version__, 'tables', tables.__version__, 'z3',
      z3.get_version_string())

import importlib, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, root)
sys.path.insert(0, "/repo/src")
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.setrecursionlimit(20000)
import warnings, logging
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
prop = sys.argv[1]
from lib import harness
mod = importlib.import_module("checks." + prop.lower())
rc = harness.main(prop, mod, sys.argv[2:])
sys.stdout.flush()
os._exit(rc)

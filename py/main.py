import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import vf
pid = sys.argv[1]
m = importlib.import_module("checks." + pid.lower())
sys.exit(vf.main(pid, m.run))

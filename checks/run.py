import importlib, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "checks")]
sys.dont_write_bytecode = True
import vk
vk.main(sys.argv[1], importlib.import_module(sys.argv[1].lower()).run)

"""Nothing to build: confirm that the interpreter, the library under test and the seams load."""
import os, sys
os.environ.setdefault("MPLBACKEND", "Agg")
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dst import seams
m = seams.install()
from dst import workload
print("mealpy from", m.__file__, "-", len(workload.algorithms()), "algorithms")

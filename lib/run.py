"""run.py <property id>: decides one property over the current tree."""
import sys, os
if "PYTHONHASHSEED" not in os.environ:
    # set iteration order must not differ from run to run
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED="0"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(10000)
import core, props
sys.exit(core.run(sys.argv[1], props.PROPS[sys.argv[1]]))

import sys, os
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "checks"))
import boot  # noqa: E402  (sets up paths to /repo and hypothesis)
import pbt   # noqa: E402
if __name__ == "__main__":
    sys.exit(pbt.main(sys.argv[1:]))

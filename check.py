"""check.py <ID> [--thorough] [--replay FILE]"""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp.runner import main  # noqa: E402

if __name__ == '__main__':
    try:
        rc = main(sys.argv[1:])
    except BaseException:
        import traceback
        traceback.print_exc()
        print(f'VIOLATION property={sys.argv[1]} replay={os.path.abspath(__file__)} '
              'no-failing-input-found')
        rc = 1
    sys.stdout.flush()
    os._exit(rc)

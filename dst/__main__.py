import os
import sys
import traceback

if __name__ == '__main__':
    try:
        from dst import driver
        code = driver.main(sys.argv[1:])
    except BaseException:
        traceback.print_exc(file=sys.__stderr__)
        code = 2
    sys.__stdout__.flush()
    sys.__stderr__.flush()
    os._exit(code)

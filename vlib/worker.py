from vlib.core import worker_main

if __name__ == "__main__":
    import vlib.core
    import sys

    # cases raise vlib.core.Violation: make sure there is only one such module
    assert sys.modules["vlib.core"] is vlib.core
    worker_main()

import sys, os, gc
gc.set_threshold(200000, 50, 50)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import framework
PROPS = {}
import specs_space, specs_disk, specs_storage
PROPS.update(specs_space.PROPS)
if __name__ == '__main__': framework.main(PROPS)

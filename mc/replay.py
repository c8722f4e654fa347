"""python -m mc.replay FILE : run the recorded violating cases alone, without the explorer."""
import json, sys
sys.dont_write_bytecode = True
from mc.run import load
from mc import core

if __name__ == '__main__':
    rec = json.load(open(sys.argv[1]))
    mod = load(rec['property'])
    bad = 0
    for v in rec['violations']:
        case = v['case']
        with core.silent():
            msgs = mod.replay(case)
        print(json.dumps(case)[:400])
        for m in msgs or ['(no violation on this tree)']:
            print('   ', m)
        bad += bool(msgs)
    sys.exit(1 if bad else 0)

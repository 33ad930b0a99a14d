# Jython: executes sessions on the real code and records events.
import sys, json, traceback
sys.dont_write_bytecode = True
driver, inp, outp, src = sys.argv[1:5]
import os
sys.path.insert(0, src)
sys.path.insert(0, os.path.dirname(os.path.abspath(sys.argv[0])))
try:
    import base
    mod = __import__("drv_" + driver)
except Exception:
    traceback.print_exc()
    print "DRIVER-MACHINERY-ERROR"
    sys.exit(5)
open(outp + ".started", "w").close()
out = open(outp, "w")
for line in open(inp):
    i, sess = json.loads(line)
    try:
        events = mod.run(sess)
    except base.HarnessError:
        traceback.print_exc()
        print "DRIVER-MACHINERY-ERROR"
        out.close()
        sys.exit(5)
    except Exception:
        # the code under test answered in a way the driver cannot even project
        events = [{"op": "HANG", "why": traceback.format_exc()[-900:]}]
    rec = dict(sess)
    rec["events"] = events
    out.write(json.dumps([i, rec]) + "\n")
    out.flush()
out.close()

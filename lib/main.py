import sys, traceback
import env, framework
sys.setrecursionlimit(100000)
try:
    rc = framework.main(sys.argv[1], sys.argv[2].lstrip("-"))
except env.ToolError as e:
    print("CHECK-ERROR property=%s %s" % (sys.argv[1], e)); rc = 2
except Exception:
    traceback.print_exc(); print("CHECK-ERROR property=%s internal error" % sys.argv[1]); rc = 2
sys.stdout.flush()
sys.exit(rc)

import sys,os
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import check
print(check.build(sys.argv[1], dict(flags=[a for a in sys.argv[2:] if not a.startswith("-l")], ldflags=[a for a in sys.argv[2:] if a.startswith("-l")])))

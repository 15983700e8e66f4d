import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
print(check.tool_irdump())

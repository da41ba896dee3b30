import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import common, llrlmc
common.build_llrl0()
common.build_engine("mcs")
common.build_engine("mcx")
common.build_engine("mca")
llrlmc.engine()
print("setup done")

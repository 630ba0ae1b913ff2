"""Warms the build cache; every check can also build on its own."""
import glob, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
vlib.build(sorted(os.path.basename(f)[:-4] for f in glob.glob(vlib.HARN + '/drv_*.cpp')), progs=['mdf2csv'])
import p_c05
p_c05.build_race()

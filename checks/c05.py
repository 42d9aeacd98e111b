import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pyvc import driver
from pyvc.layouts import bins
sys.exit(driver.layout_check('C05', bins.LAYOUTS))

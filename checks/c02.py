import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pyvc import driver
from pyvc.layouts import trackgroups
sys.exit(driver.layout_check('C02', trackgroups.LAYOUTS, trackgroups.NO_MOB_ID))

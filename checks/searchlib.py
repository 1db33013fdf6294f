import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from collections import Counter
import build
from pbt import *
from model import *
from search import *
import daemon

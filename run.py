#!/usr/bin/env python3
import os
import sys
import warnings

if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable, '-W', 'ignore'] + sys.argv)
warnings.simplefilter('ignore')
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mks.core import main  # noqa: E402

sys.exit(main(sys.argv[1:]))

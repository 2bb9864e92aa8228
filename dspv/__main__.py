import os, sys
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable, '-m', 'dspv'] + sys.argv[1:])
from .core import main
sys.exit(main(sys.argv[1]))

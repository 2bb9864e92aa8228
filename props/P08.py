"""quick_sort"""
from .common import *
from . import quick as Q



UNITS = [Unit('QUICK::insertion', Q.u_insertion, ['QUICK::insertion'], timeout=20), Unit('QUICK::partition', Q.u_partition, ['QUICK::partition', 'QUICK::swap'], timeout=20),
         Unit('QUICK::median', Q.u_median, ['QUICK::median', 'QUICK::swap'], timeout=20),
         Unit('QUICK::sort', Q.u_sort, ['QUICK::sort']), Unit('quick_sort', Q.u_quick_sort, ['quick_sort'])]
ASSUME = ['0 <= n <= 2^28', 'element type is a copyable value type with a strict weak order given by < and > (total, no NaN)',
          'element identities distinguish equal keys (parametricity: the template can only compare, copy and store elements)']
NATIVE = 'P08'

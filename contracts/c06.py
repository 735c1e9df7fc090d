from .base import *
from .procloop import whole_run

contract('C06', 'run-after-another', max_paths=20000)(whole_run(('C06',), used=True))

from .base import *
from .procloop import whole_run

contract('C04', 'run', max_paths=20000)(whole_run(('C04',)))

from .base import *
from .procloop import whole_run

contract('C05', 'run', max_paths=20000)(whole_run(('C05',)))

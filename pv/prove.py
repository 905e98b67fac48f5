"""Names used by the property modules."""
from .verify import *
from .libmodels import *
from .models import *
from .contracts import *
from .specs import *

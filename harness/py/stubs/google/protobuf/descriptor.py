_USE_C_DESCRIPTORS = False
from . import Descriptor  # noqa: E402,F401

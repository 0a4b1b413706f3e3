from . import sparse  # noqa

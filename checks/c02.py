"""See lobcommon."""
from checks.lobcommon import run  # noqa

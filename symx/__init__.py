"""Bounded symbolic execution of the real glimpse code, decided by z3."""
import sys

try:
    import z3  # noqa: F401
except ImportError:  # glimpse's interpreter: z3 lives in the verification venv
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

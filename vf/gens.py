"""The registered generators and how to reach them."""
from .check import lib

DEVICES = {"/dev/random", "/dev/urandom", "/dev/arandom"}


def listed():
    """[{num, name, max, min}] of the library's registry."""
    return lib(["types"])[0]["g"]


def software(gs=None):
    """Deterministic generators that need no input and no components."""
    return [g for g in gs or listed() if not g["name"].startswith("/dev") and not g["name"].startswith("file_input")
            and not g["name"].startswith("stdin_input") and not g["name"].startswith("XOR") and g["num"] != 207]

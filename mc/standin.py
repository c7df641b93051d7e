"""Stand-in for the git submodule ``bdld/helpers``.

The submodule is empty in this checkout (no network, not part of the pinned
commit), so nothing in bdld beyond the parser can be imported without it.  The
names below are the ones bdld imports.  They are *environment* for the model
checker: small, boring, written from the way bdld calls them and from the
documented plumed file format.  They are installed in memory only
(``install``), never written to /repo, and a real ``bdld.helpers`` found in the
tree always takes precedence.
"""
import os
import sys
import types

import numpy as np


class PlumedHeader:
    """`#! FIELDS a b c` line followed by one `#! SET name value` per constant"""

    def __init__(self, fields=None, constants=None, delim=None):
        self.fields = list(fields or [])
        self.constants = dict(constants or {})
        self.delim = delim or "#!"

    def __str__(self):
        out = [f"{self.delim} FIELDS " + " ".join(self.fields)]
        out += [f"{self.delim} SET {k} {v}" for k, v in self.constants.items()]
        return "\n".join(out)

    __repr__ = __str__

    def set_constant(self, name, val):
        self.constants[name] = str(val)

    def add_field(self, name):
        self.fields.append(name)


def backup_if_exists(name):
    """Move an existing file out of the way, to the first free bck.<n>.<name>"""
    if not os.path.exists(name):
        return
    folder, base = os.path.split(name)
    n = 0
    while os.path.exists(os.path.join(folder, f"bck.{n}.{base}")):
        n += 1
    os.rename(name, os.path.join(folder, f"bck.{n}.{base}"))


def initialize_file(
    filename, fields=None, constants=None, comment_delim=None, overwrite=False
):
    """Start a fresh file (backing up an old one) holding just the header"""
    if not overwrite:
        backup_if_exists(filename)
    with open(filename, "w") as f:
        if fields:
            f.write(str(PlumedHeader(fields, constants, comment_delim)) + "\n")


def write_2d_sliced_to_file(filename, data, nbins, fmt="%.18e", header=None):
    """Rows (x, y, value), blank line whenever the first coordinate changes"""
    blocks = np.asarray(data).reshape(*nbins, -1)
    with open(filename, "w") as f:
        if header:
            f.write(str(header) + "\n")
        for i, block in enumerate(blocks):
            if i:
                f.write("\n")
            np.savetxt(f, block, fmt=fmt, delimiter=" ", newline="\n", comments="")


def make_ordinal(n):
    """1 -> 1st, 2 -> 2nd, 11 -> 11th"""
    n = int(n)
    if n % 100 in (11, 12, 13):
        return f"{n}th"
    return f"{n}" + {1: "st", 2: "nd", 3: "rd"}.get(n % 10, "th")


def prefix_filename(path, prefix):
    folder, base = os.path.split(path)
    return os.path.join(folder, prefix + base)


def install():
    """Provide bdld.helpers.{misc,plumed_header} unless the real ones import

    :return: True if the stand-in is used
    """
    import importlib

    import bdld

    try:
        importlib.import_module("bdld.helpers.misc")
        importlib.import_module("bdld.helpers.plumed_header")
        return False
    except ModuleNotFoundError:
        pass
    for name in list(sys.modules):
        if name == "bdld.helpers" or name.startswith("bdld.helpers."):
            del sys.modules[name]
    pkg = types.ModuleType("bdld.helpers")
    pkg.__path__ = []
    misc = types.ModuleType("bdld.helpers.misc")
    for f in (
        backup_if_exists,
        initialize_file,
        write_2d_sliced_to_file,
        make_ordinal,
        prefix_filename,
    ):
        setattr(misc, f.__name__, f)
    misc.PlumedHeader = PlumedHeader
    misc.np = np
    misc.os = os
    head = types.ModuleType("bdld.helpers.plumed_header")
    head.PlumedHeader = PlumedHeader
    pkg.misc = misc
    pkg.plumed_header = head
    sys.modules["bdld.helpers"] = pkg
    sys.modules["bdld.helpers.misc"] = misc
    sys.modules["bdld.helpers.plumed_header"] = head
    bdld.helpers = pkg
    return True

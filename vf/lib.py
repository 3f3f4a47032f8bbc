"""Thin, monitored access to the library under test (public API only)."""
import os
import sys

import ocfl
from ocfl.fsw import FswException
from ocfl.inventory import InventoryException
from ocfl.new_version import NewVersionException
from ocfl.object_utils import ObjectException
from ocfl.storage_root import StorageRootException
from ocfl.layout import LayoutException
from ocfl.validator import Validator
from ocfl.version_metadata import VersionMetadata

REFUSALS = (ObjectException, NewVersionException, InventoryException, StorageRootException, FswException, LayoutException, FileNotFoundError)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WANT = os.path.realpath(os.environ.get("VF_REPO", "/repo"))
if not os.path.realpath(ocfl.__file__).startswith(WANT + "/"):
    sys.stderr.write("vf: ocfl imported from %s, not %s\n" % (ocfl.__file__, WANT))
    sys.exit(4)


def vmeta(m):
    return VersionMetadata(created=m["created"], message=m["message"], name=m["name"], address=m["address"])


def validate(path, **kw):
    """(passed, sorted codes, validator) from the library's object validation."""
    lax = kw.pop("lax_digests", False)
    passed, v = ocfl.Object(lax_digests=lax).validate(objdir=path, **kw)
    return passed, v


def age(path, when=1577836800):
    """Give everything the same times: damage done by the medium or by a careful hand does not show there."""
    for dirpath, dirs, files in os.walk(path):
        for n in files + dirs:
            os.utime(os.path.join(dirpath, n), (when, when), follow_symlinks=False)


def codes(v, kind=None):
    return sorted(c for c in v.log.codes if kind is None or c.startswith(kind))

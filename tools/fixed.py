"""Rewrites the "fixed" list of known_findings.json from /repo's fix: commits and the property map below."""
import json
import os
import subprocess
import sys

TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {  # beginning of commit subject -> property
    "verbosity options": "C21", "object tree notes": "C21", "ocfl-root.py show": "C21", "ocfl-object.py validate": "C21", "ocfl-validate.py shows": "C21", "ocfl-sidecar.py": "C21",
    "report objects with higher": "C15", "do not add objects where": "C14", "use the layout declared": "C14", "storage root with invalid": "C15",
    "match whole object declaration": "C15", "handle layouts without": "C13", "refuse identifiers without": "C13", "match whole identifier": "C13",
    "register tuple tree": "C14", "consider only files as Namaste": "C22", "avoid content paths": "C17", "refuse invalid or conflicting": "C17",
    "populate fixity": "C02", "return failure value": "C11", "honour lax_digests": "C12", "copy data supplied": "C16", "do not overwrite an existing file": "C05",
    "refuse to build": "C05", "do not create or build": "C05", "raise ObjectException for inconsistent": "C24", "keep old inventory sidecar": "C04",
    "support update of the open": "C01", "write sidecar for the digest": "C02", "record created date": "C02", "keep manifest, fixity": "C17",
    "copy every content file": "C06", "keep the object's specification": "C24", "report digest algorithms": "C11", "check contentDirectory": "C10",
    "require declaration content": "C08", "report E015": "C08", "report malformed": "C11", "check root inventory type": "C09", "detect file/directory": "C09",
    "recognize registered": "C07", "extract_file checks logical": "C05", "check all of a content path": "C09", "check fixity algorithms before": "C05", "check digest algorithm and version": "C05", "compare prior inventory": "C07",
    "check spec version of last": "C10", "do not add directory without": "C14", "verdict on an object": "C11", "validate_inventory reports inventory": "C11", "Namaste file that cannot be read": "C11", "report content file that is listed": "C11",
    "match the whole declaration": "C22", "refuse timestamps with": "C20", "use first value of tags": "C19", "bag made from an empty": "C19", "do not use email": "C19", "refuse version metadata": "C05", "refuse to create object with content directory": "C23", "refuse to create an object with an empty": "C05",
    "local helper functions": "C18", "fsw_copydir copies": "C18", "extract to destination given": "C01",
    "document codes E011": "C25", "copy deepest files first": "C26", "read layout parameters file as UTF-8": "C27", "read inventory as UTF-8": "C27", "read layout file as UTF-8": "C27",
    "write storage root declaration last": "C26", "adding an object to a storage root keeps version": "C14", "force_spec_version of Validator": "C09", "create and build objects on S3": "C29", "initialize storage root on S3": "C29", "forget S3 listings": "C29", "check for conflicting paths was slow": "C17",
    "do not accept digests followed": "C09", "accept zero-padded versions": "C07", "report inconsistent versions and differences": "C27", "name the fixity algorithm": "C25", "do not report differences from a contentDirectory": "C25",
}


def main():
    fn = os.path.join(TOP, "known_findings.json")
    data = {"findings": []}
    if os.path.exists(fn):
        with open(fn, encoding="utf-8") as fh:
            data = json.load(fh)
    out = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True, check=True).stdout
    fixed = []
    for line in out.splitlines():
        h, s = line.split(" ", 1)
        if not s.startswith("fix: "):
            continue
        s = s[5:]
        p = [v for k, v in MAP.items() if s.startswith(k)]
        if not p:
            sys.exit("no property for: " + s)
        fixed.append("fixed: property=%s %s %s" % (p[0], h, s))
    data["fixed"] = fixed
    with open(fn, "w", encoding="utf-8") as fh:
        json.dump(data, fh, indent=1)
        fh.write("\n")


main()

"""Small readings of Go source text."""
import re


def strip_comments(t):
    return re.sub(r"/\*.*?\*/|//[^\n]*", "", t, flags=re.S)


def package_of(t):
    m = re.search(r"^\s*package\s+(\w+)", strip_comments(t), re.M)
    return m.group(1) if m else ""


def imports_c(t):
    t = strip_comments(t)
    return bool(re.search(r'^\s*import\s+"C"|^\s*"C"\s*$', t, re.M))

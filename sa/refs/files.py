"""Reference definitions: enumeration of numbered data map files."""

import math
import os


def name(base, number, ext):
    return '%s%05d%s' % (base, number, ext)


def file_names(base, begin, end, ext):
    """Names of all numbers begin, begin + 1, ..., end."""
    number = begin
    while number <= end:
        yield name(base, number, ext)
        number += 1


def singles(base, begin, end, ext):
    """Existing files in order, up to the first gap or the end."""
    for path in file_names(base, begin, end, ext):
        if not os.access(path, os.F_OK):
            break
        yield path


def groups(base, begin, end, ext, group, step):
    """Complete bundles of consecutive existing files."""
    first = begin
    while first + group - 1 <= end:
        bundle = []
        for i in range(group):
            bundle.append(name(base, first + i, ext))
        complete = True
        for path in bundle:
            if not os.access(path, os.F_OK):
                complete = False
        if not complete:
            break
        yield bundle
        first += step


def singles_to_singles(base, out, begin, end, ext, outext):
    number = begin
    for path in singles(base, begin, end, ext):
        yield path, name(out, number, outext)
        number += 1


def groups_to_singles(base, out, begin, end, ext, outext, group, rolling):
    if rolling:
        number = begin
        step = 1
    else:
        number = math.ceil(begin/group)
        step = group

    for bundle in groups(base, begin, end, ext, group, step):
        yield bundle, name(out, number, outext)
        number += 1

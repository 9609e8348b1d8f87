"""Reference definitions: backups of existing output files."""

import os


def prepare(path):
    """Make the directory and move an existing file out of the way."""
    directory, filename = os.path.split(path)
    if not os.path.exists(directory if directory != '' else '.'):
        os.makedirs(directory if directory != '' else '.')
    if os.path.exists(path):
        os.rename(path, backup(path))


def backup(path):
    """First free name #file.K#, K = 1, 2, ..., in the same directory."""
    directory, filename = os.path.split(path)
    k = 1
    while os.path.exists(os.path.join(directory, '#%s.%d#' % (filename, k))):
        k += 1
    return os.path.join(directory, '#%s.%d#' % (filename, k))

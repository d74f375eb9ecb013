"""Scratch folders of harnesses."""
import os
import shutil
import tempfile


def make(h):
    d = tempfile.mkdtemp(prefix="vscratch.")
    os.chmod(d, 0o755)
    h._undo.append((_Remover(d), "path", None))
    return d


class _Remover(object):
    def __init__(self, d):
        self.__dict__["d"] = d

    def __setattr__(self, k, v):
        shutil.rmtree(self.__dict__["d"], ignore_errors=True)


def chdir(h, d):
    h._undo.append((_Chdir(os.getcwd()), "path", None))
    os.chdir(d)


class _Chdir(object):
    def __init__(self, d):
        self.__dict__["d"] = d

    def __setattr__(self, k, v):
        os.chdir(self.__dict__["d"])

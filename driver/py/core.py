"""Imports copclib from the working tree, with its extension module at the given path."""
import importlib.abc, importlib.machinery, importlib.util, sys


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, path):
        self.path = path

    def find_spec(self, name, path, target=None):
        if name == "copclib._core":
            return importlib.util.spec_from_file_location(name, self.path, loader=importlib.machinery.ExtensionFileLoader(name, self.path))


def extra():
    """helpers compiled into the same library as the extension module"""
    path = sys.meta_path[0].path
    spec = importlib.util.spec_from_file_location("_extra", path, loader=importlib.machinery.ExtensionFileLoader("_extra", path))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def install(repo, core):
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder(core))
    sys.path.insert(0, repo + "/python")
    import copclib
    return copclib

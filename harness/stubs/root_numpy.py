"""Stand-in for root_numpy.array2tree: keeps a copy of the array with its tree."""
from ROOT import TTree


def array2tree(arr, name='tree', tree=None):
    if tree is None:
        tree = TTree(name)
    tree.arrays.append(arr.copy())
    return tree

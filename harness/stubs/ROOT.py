"""Stand-in for PyROOT: files and trees that only record what was put into them."""
FILES = []


class _Root:
    def ProcessLine(self, line):
        pass


gROOT = _Root()


class StringHolder:
    def __init__(self):
        self.fString = ''


class _Address:
    def __init__(self, obj, name):
        self.get = lambda: getattr(obj, name)


def AddressOf(obj, name):
    return _Address(obj, name)


class TFile:
    def __init__(self, path, mode='read'):
        self.path, self.mode, self.trees, self.calls = path, mode, [], []
        FILES.append(self)
        if mode.lower() in ('recreate', 'new', 'create'):
            open(path, 'w').write('ROOT stand-in\n')

    def Write(self):
        self.calls.append('Write')

    def Close(self):
        self.calls.append('Close')


class TTree:
    def __init__(self, name, title=''):
        self.name, self.branches, self.fills, self.arrays = name, {}, [], []
        if FILES and 'Close' not in FILES[-1].calls:
            FILES[-1].trees.append(self)

    def Branch(self, name, address, leaflist):
        self.branches[name] = (address, leaflist)

    def Fill(self):
        self.fills.append({k: a.get() for k, (a, _) in self.branches.items()})

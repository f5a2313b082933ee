"""The part of h5py that hera_pspec relies on, as an assumed contract: files are trees of groups with attributes and datasets."""
DISK = {}
class Node:
    def __init__(s): s.attrs, s.kids, s.content = {}, {}, None
class Group:
    def __init__(s, node, file): s.node, s.file = node, file
    def _live(s, write=False):
        if s.file.closed: raise ValueError("Invalid location identifier (file closed)")
        if write and s.file.mode == 'r': raise OSError("no write intent on file")
    @property
    def attrs(s): s._live(); return s.node.attrs
    def keys(s): s._live(); return sorted(s.node.kids)
    def __iter__(s): return iter(s.keys())
    def __contains__(s, k): s._live(); return k in s.node.kids
    def __getitem__(s, k):
        s._live()
        if k not in s.node.kids: raise KeyError(k)
        return Group(s.node.kids[k], s.file)
    def __delitem__(s, k):
        s._live(True)
        if k not in s.node.kids: raise KeyError(k)
        del s.node.kids[k]
    def __setitem__(s, k, g):
        s._live(True)
        if k in s.node.kids: raise OSError("name already exists")
        s.node.kids[k] = g.node
    def create_group(s, k):
        s._live(True)
        if k is None: return Group(Node(), s.file)          # anonymous until it is linked
        if k in s.node.kids: raise ValueError("name already exists")
        s.node.kids[k] = Node(); return Group(s.node.kids[k], s.file)
    def visititems(s, f):
        from dv import interp
        s._live()
        def walk(n, pre):
            for k in sorted(n.kids):
                r = interp.call(f, [pre + k, Group(n.kids[k], s.file)], {})
                if r is not None: return r
                r = walk(n.kids[k], pre + k + "/")
                if r is not None: return r
        return walk(s.node, "")
OPEN = []
class File(Group):
    def __init__(s, name, mode='r', libver=None, swmr=False):
        if mode in ('r', 'r+') and name not in DISK: raise OSError("unable to open file")
        if mode == 'w' or name not in DISK: DISK[name] = Node()
        Group.__init__(s, DISK[name], s); s.mode, s.closed, s.swmr_mode = ('r' if mode == 'r' else 'w'), False, swmr; OPEN.append(s)
    def close(s): s.closed = True
    def flush(s): s._live()
    def __enter__(s): return s
    def __exit__(s, *a): s.close()
def reset():
    DISK.clear(); OPEN.clear()

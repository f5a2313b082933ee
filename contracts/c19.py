from .base import *
PROP = Prop("C19", "deductive verification (VCs generated from the source, assumed HDF5 file contract, z3) with bounded run-time contract cases",
            ["h5py files are trees of groups with attributes, creation, deletion, listing and read-only handles (contracts/h5.py, an assumed contract; the run-time cases use the real library)",
             "UVPSpec.write_to_group stores, UVPSpec.read_from_group returns an equal object (property C05), combine_uvpspec combines or raises (property C06)",
             "group and spectrum names contain no '/' (HDF5's path separator), and the group name 'header' is reserved; merging is done on a container that is kept open"])
LEVEL = "other"
NOTE = "Deductive proof over every operation of a container from every state of two groups and two names (presence of each enumerated, stored spectra arbitrary): each operation returns or changes exactly what it names, refusals and failures change nothing, so by induction every history over those names does. Bounded in the number of names; HDF5 itself is an assumed contract. Merging is proved for a list of name families and checked with real files and random names by bounded run-time contract cases. Trusts the VC generator and z3."
import copy, os, shutil, tempfile, itertools, warnings, contextlib, io
import numpy as np, h5py
from hera_pspec import container, uvpspec
from hera_pspec.container import PSpecContainer
from hera_pspec.uvpspec import UVPSpec
from .build import build as bld, snapshot, diff
from . import h5
import time as _time

# ------------------------------------------------------------------ assumed contracts
class WriteFailed(Exception): pass
def install():
    from .sym import interp
    h5.reset()
    interp.CONTRACTS[h5py.File] = h5.File; interp.CONTRACTS[_time.sleep] = lambda t: None
    def check(self, just_meta=False):
        if self.__dict__.get("invalid"): raise AssertionError("object fails its check")
    def write(self, group, run_check=True):
        if run_check: check(self)
        group._live(True); group.node.content = self.payload
        if self.__dict__.get("unwritable"): raise TypeError("no HDF5 type for an attribute")
        group.node.attrs["pspec_type"] = "UVPSpec"
    def read(self, group, **kw):
        assert group.attrs.get("pspec_type") == "UVPSpec"; self.__dict__["payload"] = group.node.content; self.__dict__["options"] = kw
    interp.CONTRACTS[UVPSpec.check] = check; interp.CONTRACTS[UVPSpec.write_to_group] = write; interp.CONTRACTS[UVPSpec.read_from_group] = read
def spectrum(payload, invalid=False):
    from .sym import blank
    u = blank(); u.__dict__.update(payload=payload, invalid=invalid == "invalid", unwritable=invalid == "unwritable"); return u
def states():
    """which of (g1|g2)/(n1|n2) are stored, and groups that exist but are empty"""
    for present in itertools.product((False, True), repeat=4):
        keys = [k for k, p in zip(itertools.product(("g1", "g2"), ("n1", "n2")), present) if p]
        for empty in ((), ("g1",), ("g2",)):
            if any(k[0] in empty for k in keys): continue
            yield keys, empty
def start(keys, empty=(), mode="rw", keep_open=True, swmr=False, exists=True):
    """container in an arbitrary state; the payload of each stored spectrum is an arbitrary real"""
    from .sym import sreal
    install(); model = {}
    if exists:
        root = h5.DISK["f"] = h5.Node(); hdr = root.kids["header"] = h5.Node(); hdr.attrs["hera_pspec.version"] = container.__version__; root.attrs["pspec_type"] = "PSpecContainer"
        for g in empty: root.kids[g] = h5.Node()
        for g, n in keys:
            G = root.kids.setdefault(g, h5.Node()); N = G.kids[n] = h5.Node(); N.attrs["pspec_type"] = "UVPSpec"; N.content = model[g, n] = sreal(f"{g}_{n}")
    from .sym import call, interp
    psc = interp.created(object.__new__(PSpecContainer)); call(PSpecContainer.__init__, psc, "f", mode=mode, keep_open=keep_open, swmr=swmr)
    return psc, model, set(empty) | {g for g, n in keys}
def holds(name, model, groups, psc=None):
    """the file stores exactly the model (every stored spectrum with its value), and handles are open only when kept open"""
    from .sym import E
    root = h5.DISK["f"]
    E.prove(name + ".groups", set(root.kids) - {"header"} == set(groups))
    E.prove(name + ".names", {(g, n) for g in root.kids if g != "header" for n in root.kids[g].kids} == set(model))
    for (g, n), v in model.items():
        x = root.kids.get(g) and root.kids[g].kids.get(n)
        E.prove(name + f".tag {g}/{n}", x is not None and x.attrs.get("pspec_type") == "UVPSpec")
        E.prove_eq(name + f".value {g}/{n}", x.content if x is not None else 0, v)
    if psc is not None:
        E.prove(name + ".handle", (psc.data is not None) == psc.keep_open and all(f.closed for f in h5.OPEN if f is not psc.data))
def attempt(*a, **k):
    from .sym import call
    with contextlib.redirect_stdout(io.StringIO()):
        try: return None, call(*a, **k)
        except Exception as ex:
            from dv.core import DVBase
            if isinstance(ex, DVBase): raise
            return ex, None
BOUND = "2 groups and 2 names, every combination present or absent"
@PROP.proof(bounded=BOUND, budget=300)
def storing():
    from .sym import E, sreal
    for keys, empty in states():
        for keep_open in (True, False):
            for g, n in (("g1", "n1"), ("g2", "n2")):
                for overwrite in (False, True):
                    for invalid in (False, 'invalid', 'unwritable'):
                        psc, model, groups = start(keys, empty, keep_open=keep_open); new = sreal("new")
                        ex, r = attempt(psc.set_pspec, g, n, spectrum(new, invalid), overwrite=overwrite)
                        refuse = bool(invalid) or ((g, n) in model and not overwrite)
                        E.prove("refused_iff", (ex is not None) == refuse)
                        if not refuse: model[g, n] = new; groups.add(g)
                        holds("after", model, groups, psc)
@PROP.proof(bounded=BOUND, budget=300)
def refused_arguments():
    from .sym import E, sreal
    for keys, empty in states():
        for keep_open in (True, False):
            for args in ((["g1"], "n1", "u"), (("g1",), "n1", "u"), ("g1", ["n1", "n2"], "u"), ("g1", "n1", "uu"), ("g1", ["n1"], "uu"), ("g1", "n1", 3), ("g1", "n1", None)):
                psc, model, groups = start(keys, empty, keep_open=keep_open); u = spectrum(sreal("new"))
                ex, r = attempt(psc.set_pspec, *[{"u": u, "uu": [u, u]}.get(a, a) if isinstance(a, str) else a for a in args], overwrite=True)
                E.prove("refused", isinstance(ex, (ValueError, TypeError))); holds("unchanged", model, groups, psc)
@PROP.proof(bounded=BOUND, budget=300)
def read_only():
    from .sym import E, sreal
    for keys, empty in states():
        for keep_open in (True, False):
            psc, model, groups = start(keys, empty, mode="r", keep_open=keep_open)
            for overwrite in (False, True):
                ex, r = attempt(psc.set_pspec, "g1", "n1", spectrum(sreal("new")), overwrite=overwrite); E.prove("refused", isinstance(ex, OSError)); holds("unchanged", model, groups, psc)
            for f, a in ((psc.groups, ()), (psc.tree, ()), (psc.spectra, ("g1",)), (psc.get_pspec, ("g1", "n1")), (psc.get_pspec, ("g1",))): attempt(f, *a); holds("still_unchanged", model, groups, psc)
@PROP.proof(bounded=BOUND, budget=300)
def lists_of_spectra():
    from .sym import E, sreal
    for keys, empty in states():
        for keep_open in (True, False):
            for overwrite in (False, True):
                psc, model, groups = start(keys, empty, keep_open=keep_open); a, b = sreal("a"), sreal("b")
                ex, r = attempt(psc.set_pspec, "g1", ["n1", "n2"], [spectrum(a), spectrum(b)], overwrite=overwrite)
                hit = [n for n in ("n1", "n2") if ("g1", n) in model and not overwrite]
                E.prove("refused_iff", (ex is not None) == bool(hit))
                for n, v in (("n1", a), ("n2", b)):
                    if hit and n >= hit[0]: break
                    model["g1", n] = v; groups.add("g1")
                holds("after", model, groups, psc)
@PROP.proof(bounded=BOUND, budget=300)
def retrieving():
    from .sym import E
    for keys, empty in states():
        for mode in ("r", "rw"):
            for keep_open in (True, False):
                psc, model, groups = start(keys, empty, mode=mode, keep_open=keep_open)
                for g, n in itertools.product(("g1", "g2", "g3"), ("n1", "n2", "n3")):
                    ex, r = attempt(psc.get_pspec, g, n, just_meta=False)
                    E.prove(f"found_iff_stored", (ex is None) == ((g, n) in model) and (ex is None or isinstance(ex, KeyError)))
                    if ex is None: E.prove_eq("value", r.payload, model[g, n]); E.prove("options", r.options == {"just_meta": False})
                for g in ("g1", "g2", "g3"):
                    ex, r = attempt(psc.get_pspec, g); want = sorted(k for k in model if k[0] == g)
                    E.prove("all_found", (ex is None) == (g in groups) and (ex is not None or len(r) == len(want)))
                    if ex is None:
                        for x, k in zip(r, want): E.prove_eq("all_values", x.payload, model[k])
                holds("unchanged", model, groups, psc)
@PROP.proof(bounded=BOUND, budget=300)
def listings():
    from .sym import E
    for keys, empty in states():
        for mode in ("r", "rw"):
            for keep_open in (True, False):
                psc, model, groups = start(keys, empty, mode=mode, keep_open=keep_open); want = {g: sorted(n for h, n in model if h == g) for g in groups}
                E.prove("groups", attempt(psc.groups)[1] == sorted(groups)); holds("same1", model, groups, psc)
                for g in ("g1", "g2", "g3"):
                    ex, r = attempt(psc.spectra, g); E.prove("spectra", (ex is None) == (g in groups) and (ex is not None or r == want[g]))
                E.prove("tree", attempt(psc.tree, return_str=False)[1] == want); holds("same2", model, groups, psc)
                s = attempt(psc.tree)[1]; E.prove("tree_text", s == "".join(f"({g})\n" + "".join(f"  |--{n}\n" for n in want[g]) for g in sorted(groups)))
                E.prove("saved", keep_open is False or attempt(psc.save)[0] is None); holds("same3", model, groups, psc)
@PROP.proof()
def new_files_and_modes():
    from .sym import E
    for keep_open in (True, False):
        for mode in ("r", "rw", "w", "a"):
            h5.reset(); from .sym import call
            try: psc, model, groups = start((), (), mode=mode, keep_open=keep_open, exists=False); ex = None
            except (ValueError, OSError) as e: ex = e
            E.prove("mode", (ex is None) == (mode == "rw" or (mode == "r" and not keep_open)))
            if mode == "rw":
                ex, r = attempt(psc.groups); E.prove("empty", r == []); holds("empty", {}, set(), psc)
@PROP.proof(bounded=BOUND)
def swmr_writes_nothing_new():
    from .sym import E, sreal
    for keys, empty in states():
        for keep_open in (True, False):
            for g, n in (("g1", "n1"), ("g2", "n2")):
                psc, model, groups = start(keys, empty, keep_open=keep_open, swmr=True); new = sreal("new")
                ex, r = attempt(psc.set_pspec, g, n, spectrum(new), overwrite=True); E.prove("refused_iff_new", (ex is not None) == ((g, n) not in model))
                if ex is None: model[g, n] = new
                holds("after", model, groups, psc)
# ------------------------------------------------------------------ merging
FAMILIES = [["d1_x_d2_a", "d1_x_d2_b", "d1_x_d2"], ["d1_x_d2_a", "d1_x_d22_a", "d1_x_d2", "d1_x_d22_b"], ["d1_x_d2_a", "dd1_x_d2_a", "d1_x_d2_b", "dd1_x_d2"], ["a_x_b_1", "b_x_a_1", "a_x_b_1_2", "a_x_bb"],
            ["uvp_1", "uvp_2", "uvp", "uvp2_1"], ["uv_1", "uvp_1", "xuv_1", "uv"], ["foo", "foo_x_bar_1", "foobar_x_bar_1", "foo_bar"]]
def root_of(name, split, ext):
    """the name a spectrum is merged under: dset1_x_dset2 of dset1_x_dset2_ext, or what precedes the first extension; None outside the convention"""
    if not split: return name.split(ext)[0]
    parts = name.split(split)
    if len(parts) == 1: return name if ext not in name else None
    a, b = parts[0], parts[1]
    return None if ext in a else a + split + b.split(ext)[0]
def merged(names, split, ext, overwrite, fails):
    """expected names after merging: {name: tuple of merged names}"""
    out = {n: (n,) for n in names}
    for r in {root_of(n, split, ext) for n in names} - {None}:
        if r in names and not overwrite: continue
        members = tuple(n for n in names if root_of(n, split, ext) == r)
        if len(members) > 1 and fails(members): continue
        for n in members: del out[n]
        out[r] = members
    return out
def merging(fam):
    def h():
        from .sym import E, sreal, interp, call
        for names in (c for k in range(1, len(fam) + 1) for c in itertools.combinations(fam, k)):
            names = sorted(names)
            for split in ("_x_", None):
                for overwrite in (False, True):
                    for failing in (None, names[0]):
                        psc, model, groups = start([("g1", n) for n in names] + [("g2", "d1_x_d2_a")]); rev = []
                        weight = {n: 3 ** i for i, n in enumerate(names)}
                        def combine(uvps, merge_history=True, verbose=True):
                            if any(u.payload is model.get(("g1", failing)) for u in uvps): raise AssertionError("cannot be combined")
                            t = 0
                            for u in uvps: t = t + u.payload
                            return spectrum(t)
                        interp.CONTRACTS[uvpspec.combine_uvpspec] = combine
                        with contextlib.redirect_stdout(io.StringIO()): call(container.combine_psc_spectra, psc, groups=["g1"], dset_split_str=split, overwrite=overwrite, verbose=False)
                        want = merged(names, split, "_", overwrite, lambda m: failing in m); new = {("g2", "d1_x_d2_a"): model["g2", "d1_x_d2_a"]}
                        for r, m in want.items():
                            t = 0
                            for n in m: t = t + model["g1", n]
                            new["g1", r] = t
                        holds(f"{'+'.join(names)}", new, groups, psc)
    h.__name__ = "merging_" + fam[0]
    return h
for _f in FAMILIES: PROP.proof(bounded="every subset of 4 names", budget=300)(merging(_f))
# ------------------------------------------------------------------ run-time contract cases
@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="c19_")
    try: yield d
    finally: shutil.rmtree(d, ignore_errors=True)
def small(rng): return bld(rng, nspw=1, nblp=rng.choice([1, 2]), ntimes=rng.choice([1, 2]), npol=1, nfreqs=4, beam=rng.coin(), labels=True, stats=rng.choice([(), ("P_N",)]), cov=rng.coin(.2))
def broken(rng, u):
    u = copy.deepcopy(u); k = rng.randrange(4)
    if k == 0: u.data_array = {9: u.data_array[0]}
    elif k == 1: del u.vis_units
    elif k == 2: u.Nbltpairs = "many"
    else: u.blpair_array = u.blpair_array.tolist()
    return u
def equal_to(stored, got): return [k for k in diff(stored, snapshot(got)) if k != "labels"]
def look(psc, model, groups, what):
    require(psc.groups() == sorted(groups), "listing", lambda: f"{what}: groups() = {psc.groups()}, stored {sorted(groups)}")
    want = {g: sorted(n for h, n in model if h == g) for g in groups}
    require(psc.tree(return_str=False) == want, "listing", lambda: f"{what}: tree is {psc.tree(return_str=False)}, stored {want}")
    for (g, n), s in model.items():
        got = psc.get_pspec(g, n); d = equal_to(s, got); require(not d, "content", f"{what}: {g}/{n} differs from what was stored: {d}")
    for g in groups:
        l = psc.get_pspec(g); require(len(l) == len(want[g]) and all(not equal_to(model[g, n], x) for n, x in zip(want[g], l)), "all", f"{what}: get_pspec({g!r}) is not the stored list")
@PROP.case(quick=25, thorough=600)
def histories(rng):
    """random histories of 5-12 operations (store, overwrite, store invalid objects, lists, read-only and transactional handles, reopening) on real files of 2 groups and 4 names, compared with a dictionary after every step"""
    with scratch() as d, contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore"); f = os.path.join(d, "c.h5"); model = {}; groups = set(); done = []
        psc = PSpecContainer(f, mode="rw", keep_open=rng.coin()); psc.groups()
        for step in range(rng.randrange(5, 13)):
            g = rng.choice(["g1", "grp_2"]); n = rng.choice(["a_x_b", "a_x_b_1", "p(0,1)", "ab"]); op = rng.choice(["set", "set", "over", "bad", "list", "ro", "reopen", "type"])
            u = small(rng); done.append(f"{op} {g}/{n}"); ex = None
            try:
                if op in ("set", "over"): psc.set_pspec(g, n, u, overwrite=op == "over")
                elif op == "bad": psc.set_pspec(g, n, broken(rng, u), overwrite=rng.coin(.7))
                elif op == "type": psc.set_pspec(g, n, "u", overwrite=True)
                elif op == "list": m = rng.sample(["a_x_b", "a_x_b_1", "p(0,1)", "ab"], 2); v = [u, small(rng)]; psc.set_pspec(g, m, v, overwrite=True)
                elif op == "reopen": psc._close(); psc = PSpecContainer(f, mode="rw", keep_open=rng.coin())
                elif op == "ro":
                    psc._close(); r = PSpecContainer(f, mode="r", keep_open=rng.coin())
                    try: r.set_pspec(g, n, u, overwrite=True); raise Violation("readonly", "a read-only container accepted a write")
                    except OSError: pass
                    finally: look(r, model, groups, "; ".join(done)); r._close(); psc = PSpecContainer(f, mode="rw", keep_open=rng.coin())
            except Violation: raise
            except Exception as e: ex = e
            ok = {"set": (g, n) not in model, "over": True, "bad": False, "type": False}.get(op, True)
            require((ex is None) == ok, "refusal", lambda: f"{'; '.join(done)}: {'raised ' + repr(ex) if ex else 'was accepted'}")
            if op in ("set", "over") and ok: model[g, n] = snapshot(u); groups.add(g)
            if op == "list":
                for a, b in zip(m, v): model[g, a] = snapshot(b)
                groups.add(g)
            look(psc, model, groups, "; ".join(done))
            require((psc.data is not None) == psc.keep_open, "handle", f"{'; '.join(done)}: keep_open={psc.keep_open} but the file is {'open' if psc.data is not None else 'closed'}")
        psc._close()
    return f"{len(done)} operations"
@PROP.case(quick=20, thorough=500)
def merges(rng):
    """containers with 2-6 spectra of similar names (data-set names that contain each other, several extensions, the merged name already present), some impossible to combine; merged on a real file, all groups or one"""
    with scratch() as d, contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore"); f = os.path.join(d, "c.h5"); split = rng.choice(["_x_", "_x_", None, ""]); sets = rng.sample(["d1", "d11", "1", "d2", "d22", "dd1"], 3)
        pool = [a + (f"_x_{b}" if split else "") + e for a in sets for b in (sets if split else [0]) for e in ("", "_1", "_2", "_1_2", "_a")]
        base = small(rng); psc = PSpecContainer(f, mode="rw"); model = {}
        if rng.coin(.3): pool = [n for n in pool if n.endswith(("_1", "_2", "_a"))]
        for g in rng.sample(["g1", "g2"], rng.choice([1, 2])):
            for i, n in enumerate(rng.sample(pool, rng.randrange(2, 7))):
                u = copy.deepcopy(base)
                if rng.coin(.85): u.time_1_array = u.time_1_array + i + 1; u.time_2_array = u.time_2_array + i + 1; u.time_avg_array = u.time_avg_array + i + 1
                for s in u.data_array: u.data_array[s] = u.data_array[s] + i
                psc.set_pspec(g, n, u); model[g, n] = psc.get_pspec(g, n)
        todo = rng.choice([None, ["g1"], ["g1", "g3"]]); overwrite = rng.coin(.4); groups = {g for g, n in model}
        if todo and "g1" not in groups: todo = None
        container.combine_psc_spectra(psc, groups=todo, dset_split_str=split, overwrite=overwrite, verbose=False, merge_history=rng.coin())
        want = {}
        for g in groups:
            names = sorted(n for h, n in model if h == g)
            if todo and g not in todo: want.update({(g, n): snapshot(model[g, n]) for n in names}); continue
            comb = {}
            def fails(m):
                try: comb[m] = uvpspec.combine_uvpspec([copy.deepcopy(model[g, n]) for n in m], merge_history=False, verbose=False); return False
                except Exception: return True
            for r, m in merged(names, split, "_", overwrite, fails).items(): want[g, r] = snapshot(model[g, m[0]] if len(m) == 1 else comb[m])
        got = {(g, n) for g in psc.groups() for n in psc.spectra(g)}
        require(got == set(want), "merged_names", lambda: f"merging {sorted(model)} (split {split!r}, overwrite {overwrite}, groups {todo}) left {sorted(got)}, expected {sorted(want)}")
        for (g, n), s in want.items(): dd = equal_to(s, psc.get_pspec(g, n)); require(not dd, "merged_content", f"merging {sorted(model)}: {g}/{n} differs in {dd}")
        psc._close()
    return f"{len(model)} spectra"

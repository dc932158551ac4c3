"""Shared pieces of the checks on CapiTainS repositories."""
import os

from ..core import Violation
from . import ctsread, library, simrepo


class Checker(ctsread.Checker):
    FAILED = "%s failed although nothing went wrong on the disk"

    def attempt(self, c, op, fn, what):
        self.sim.begin_op(op)
        out = self.sim.call(fn)
        if not out.ok:
            self.checks += 1
            if not c.op_faults:
                raise Violation(self.FAILED % what, op={k: v for k, v in op.items() if k != "faults"}, error=out.describe())
            self.sim.probe["failed_by_fault"] += 1
        return out

    def file_of(self, o, t, repos=None):
        """A text says in which file it is."""
        got = None if o.path is None else os.path.normpath(o.path)
        self.eq(got in simrepo.paths(self.w, t), True, "a text does not lead to its file", id=t["urn"], got_path=got)


def texts_of(world):
    return [t for _, _, t in library.all_texts(world["lib"])]


def disk_faults(rng, op, n, rate):
    if rng.random() < rate:
        op["faults"] = {str(rng.randrange(n)): rng.choice(simrepo.DISRUPTIVE + simrepo.fs_module.BENIGN * 2)}
    return op


def rand_ref(rng, text, ranges=0.3, whole=0.1):
    """A reference of the text (None, single or proper range)."""
    ref = ctsread.rand_ref(rng, text, ranges, whole)
    if ref and "-" in ref and len(set(ref.split("-"))) == 1:
        return ref.split("-")[0]
    return ref


def gen_preempt(rng, clients, rate=0.5, lines=3000):
    """Line counts at which clients give way to one another in the middle of the code under test."""
    if len(clients) < 2 or rng.random() > rate:
        return {}
    return {str(i): sorted(rng.randrange(1, lines) for _ in range(rng.randrange(1, 10))) for i in range(len(clients))}


class Texts(object):
    """Opens texts and passages of the repositories in every supported way."""

    def __init__(self, sim, world, resolver):
        self.sim, self.w, self.resolver = sim, world, resolver
        self.shared, self.opened = {}, []

    def text(self, t, share=False):
        """The text object of a file."""
        from lxml import etree
        from MyCapytain.resources.texts.local.capitains.cts import CapitainsCtsText
        if share and t["urn"] in self.shared:
            return self.shared[t["urn"]]
        with open(simrepo.paths(self.w, t)[0], "rb") as f:
            out = CapitainsCtsText(urn=t["urn"], resource=f)
        self.opened.append((out, etree.tostring(out.resource)))
        if share:
            self.shared[t["urn"]] = out
        return out

    def unchanged(self, k):
        """Nothing that was done with the texts changed their documents."""
        from lxml import etree
        for text, doc in self.opened:
            k.eq(etree.tostring(text.resource) == doc, True, "the document of a text was changed by reading it", id=str(text.urn))


def form(ref, how):
    from MyCapytain.common.reference import CtsReference
    if ref is None:
        return None
    if how == "cts":
        return CtsReference(ref)
    if how == "list" and "-" not in ref:
        return ref.split(".")
    return ref

"""Typestate of the boundary-index read locks held through iterators (property C01)."""
from divamodel import *
import pipeline


def ikey(b, o):
    return (b.id, o)


class LockClient(DivaClient):
    """key: sorted tuple of ((iterator id), status).  status: H = the iterator's current leaf (kept as aux root
    ('held', id)) is read-locked iff it is non-null.  No entry: the iterator holds nothing."""

    def init(self, eng, st):
        st.key = ()
        self.names = {}

    def held(self, st):
        return dict(st.key)

    def setk(self, st, d):
        st.key = tuple(sorted(d.items()))

    def release_null(self, eng, st):
        """forget holds whose leaf is known to be null"""
        d = self.held(st)
        ch = False
        for k in list(d):
            v = st.aux.get(("held", k))
            if v is not None and eng.truth(st, icmp("eq", v, const(0))) is True:
                del d[k]
                st.aux.pop(("held", k), None)
                ch = True
        if ch:
            self.setk(st, d)

    def assume(self, eng, st, atom, val):
        self.release_null(eng, st)

    def on_api(self, eng, st, i, op, args):
        d = self.held(st)
        if op in ("iter_seek", "iter_skip1", "iter_skip1_rev", "iter_skip", "iter_next", "iter_prev", "iter_peek_ref",
                  "iter_valid", "iter_peek"):
            b, o, v = addr_parts(args[0])
            k = ikey(b, o)
            self.names[k] = b
            leaf = eng.read(st, b, o + self.leaf_off, 8, True)
            if op in ("iter_valid", "iter_peek_ref", "iter_peek"):
                return None
            self.hit("lock-transfer")
            z = eng.truth(st, icmp("eq", leaf, const(0)))
            if leaf.op == "tok" and leaf.args[0] in ("uninit", "undef", "undefc"):
                eng.report(i, f"index iterator used by {op} before its position field is initialised", st)
            if z is not True:
                h = st.aux.get(("held", k))
                if k not in d:
                    eng.report(i, f"{op} on an iterator whose leaf lock was already released: the lock would be "
                                  f"released a second time", st)
                elif h is not leaf and h is not None:
                    # position changed without releasing the held lock
                    eng.report(i, f"{op} on an iterator whose position was overwritten while its leaf lock was held", st)
            elif k in d:
                eng.report(i, f"{op} restarts an iterator whose position was cleared while its leaf lock was still "
                              f"held: the lock is never released", st)
            d[k] = "H"
            self.setk(st, d)
            return None
        if op == "leaf_unlock_read":
            self.hit("unlock")
            x = args[0]
            cand = [k for k in d if st.aux.get(("held", k)) is x]
            if not cand:
                # value lost by a merge: only a definite mismatch is reported
                unk = [k for k in d]
                if not d:
                    eng.report(i, "leaf lock released although this operation no longer holds one (released twice, or "
                                  "never taken)", st)
                    return None
                if len(unk) == 1 and vague(x):
                    cand = unk
                else:
                    eng.report(i, "leaf lock released that does not belong to any position this operation holds", st)
                    return None
            k = cand[0]
            del d[k]
            st.aux.pop(("held", k), None)
            self.setk(st, d)
            return None
        if op in ("iter_park", "iter_destroy"):
            b, o, v = addr_parts(args[0])
            k = ikey(b, o)
            leaf = eng.read(st, b, o + self.leaf_off, 8, True)
            if k not in d and eng.truth(st, icmp("eq", leaf, const(0))) is not True:
                eng.report(i, f"{op} releases a leaf lock that was already released", st)
            if k in d:
                del d[k]
                st.aux.pop(("held", k), None)
                self.setk(st, d)
            self.hit("unlock")
            return None
        if op in ("leaf_lock_read", "leaf_lock_write", "leaf_unlock_write"):
            return None
        if op in ("put", "del", "delr", "merge", "inpw", "destroy", "clean", "unref", "set"):
            self.hit("mutation")
            if d:
                eng.report(i, f"boundary index {op} called while a read lock on one of its leaves is still held", st)
            return None
        return None

    def api_effect(self, eng, st, i, op, args):
        super().api_effect(eng, st, i, op, args)
        if op in ("iter_seek", "iter_skip1", "iter_skip1_rev", "iter_skip", "iter_next", "iter_prev"):
            b, o, v = addr_parts(args[0])
            k = ikey(b, o)
            st.aux[("held", k)] = eng.read(st, b, o + self.leaf_off, 8, True)

    def ret(self, eng, st, inst, val):
        self.hit("exit")
        self.release_null(eng, st)
        if st.key:
            eng.report(inst, "operation returns while still holding a read lock on a boundary-index leaf", st)


def vague(t):
    return t.op == "tok" and t.args[0] in ("j", "mix", "ldm", "old", "clb")


def check(tier):
    keep = event_free_helpers()
    mod = pipeline.diva_module(keep=keep, tag="events")
    viol, cov = [], {"functions": [], "insts": 0, "states": 0}
    tot = {}
    for f in entries(mod):
        c = LockClient(mod, pipeline.variant(f.dem))
        e = Engine(mod, f, c)
        viol += e.run()
        for k, v in c.count.items():
            tot[k] = tot.get(k, 0) + v
        cov["functions"].append({"function": f.dem, "blocks": e.stats["blocks"], "states": e.stats["states"]})
    cov["events"] = tot
    cov["helpers_summarised"] = sorted(keep)
    return viol, cov

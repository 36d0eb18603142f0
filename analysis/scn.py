"""Scenarios for one target build: a finite description of how the recorded
state relates to the current inputs, answered atom by atom.  Anything a scenario
does not determine stays undecided, so the analysis follows both outcomes."""
from engine import *
from target import *

def elem_keys(t, coll_root_field):
    """witness names of user/load collection elements mentioned in t"""
    root, f = coll_root_field
    out = set()
    for x in subterms(t):
        if x[0] == 'elem' and len(x) == 3 and fields_under(x[1], root) == {f}:
            out.add(X if str(x[2]).startswith(X) else x[2])
    return out

def has_infos(t):
    return any(x[0] == 'fld' and len(x) == 3 and x[2] == 'infos_' for x in subterms(t))

def strip_path(p):
    while isinstance(p, tuple) and p and p[0] in ('ln', 'mp', 'path', 'str', 'disp') and len(p) == 2:
        p = p[1]
    return p

def fresh(t, root, f):
    """t fingerprints the file named by an element of root.f at analysis time"""
    for x in subterms(t):
        if x[0] == 'fs' and x[1] == 'last_write_time':
            p = strip_path(x[2][0])
            if p[0] == 'fld' and p[1][0] == 'elem' and fields_under(p[1], root) == {f}:
                return True
    return False

class Scn:
    def __init__(self, kinds, loaded=True, pch=False, srcs=True, change=None, pch_compiled=None,
                 target_linked=True, w='same', removed=False, missing=None, execok=None, saveok=True,
                 empties=(), nonempty=True, label=''):
        self.kinds = kinds
        self.loaded = loaded
        self.pch = pch
        self.srcs = srcs
        self.change = dict(change or {})
        self.pch_compiled = pch if pch_compiled is None else pch_compiled
        self.target_linked = target_linked
        self.w = w
        self.removed = removed
        self.missing = missing            # field whose files cannot be stat'ed, or None
        self.execok = execok              # callable(cmd)->bool|None, None = always ok
        self.saveok = saveok
        self.empties = set(empties)
        self.nonempty = nonempty
        self.label = label
        self.unknown = set()

    def describe(self):
        d = []
        d.append('recorded state present' if self.loaded else 'no usable record')
        d.append('precompiled headers' if self.pch else 'no precompiled header')
        for f, c in self.change.items():
            d.append('%s %s' % (f, 'now empty' if f in self.empties else 'changed (%s)' % c))
        if self.w != 'same':
            d.append('one source ' + self.w)
        if self.removed:
            d.append('a recorded source removed')
        if self.pch and not self.pch_compiled:
            d.append('pch step not recorded')
        if not self.target_linked:
            d.append('link not recorded')
        if self.missing:
            d.append('a file of %s missing' % self.missing)
        if self.execok:
            d.append('a command fails')
        if self.saveok is not True:
            d.append('saving may fail')
        if not self.srcs:
            d.append('no sources')
        if self.nonempty is False:
            d.append('all lists empty')
        return ', '.join(d)

    def user_empty(self, f, st=None):
        if st is not None:
            for a, b in st.facts.items():
                if a[0] == 'empty' and len(a) == 2 and a[1][0] == 'fld' and fields_under(a, USER) == {f}:
                    return b
        if f == 'pchs':
            return not self.pch
        if f == 'sources':
            return not self.srcs
        if f in self.empties:
            return True
        return None if self.nonempty is None else not self.nonempty

    def __call__(self, atom, st):
        r = self.answer(atom, st)
        if r is None:
            self.unknown.add(atom)
        return r

    def answer(self, atom, st):
        k = atom[0]
        if k == 'init':
            if atom[1] == 'loaded':
                return self.loaded
            if 'is_init' in str(atom[1]):
                return True
            return None
        if k == 'fld' and atom[1] == LOAD and self.kinds.get(atom[2]) == 'bool':
            if atom[2] == 'pch_compiled':
                return self.pch_compiled
            if atom[2] == 'target_linked':
                return self.target_linked
            return None
        if k == 'execok':
            return True if self.execok is None else self.execok(atom[1])
        if k == 'saveok':
            return self.saveok(atom[1]) if callable(self.saveok) else self.saveok
        if k == 'errval' and atom[1][0] == 'errc' and atom[1][1] == 'last_write_time':
            fu = fields_under(atom, USER)
            if self.missing is None:
                return False
            if fu == {self.missing}:
                ks = elem_keys(atom, (USER, self.missing))
                if ks == {O}:
                    return False
                return True
            return False
        fl, fu = fields_under(atom, LOAD), fields_under(atom, USER)
        if k == 'empty' and atom[1][0] not in ('minus', 'minusimg'):
            if fl == set() and len(fu) == 1:
                return self.user_empty(next(iter(fu)), st)
            if fu == set() and len(fl) == 1:
                f = next(iter(fl))
                if f == 'sources':
                    if self.removed or self.w in ('same', 'updated'):
                        return not self.srcs and not self.removed
                    return None
                if self.change.get(f, 'same') in ('same', 'content'):
                    return self.user_empty(f, st)
                return False if f in self.empties else None
            return None
        if k == 'empty' and atom[1][0] in ('minus', 'minusimg') and fl == {'sources'}:
            if self.removed:
                return False
            keys = elem_keys(atom[1][2], (USER, 'sources'))
            if self.w != 'added' and W not in keys and X not in keys:
                return False
            return True
        if k == 'has' and fl == {'sources'} and fu == {'sources'}:
            if fields_under(atom[1], LOAD):
                ks = elem_keys(atom[2], (USER, 'sources'))
                if not self.srcs:
                    return False
                if ks == {W}:
                    return self.w != 'added'
                if ks == {O}:
                    return True
                return True if self.w != 'added' else None
            else:
                ks = elem_keys(atom[2], (LOAD, 'sources'))
                if ks == {W}:
                    return not self.removed
                if ks == {O}:
                    return True
                return True if not self.removed else None
        if k == 'eq' and len(fl) == 1 and fl == fu:
            f = next(iter(fl))
            a, b = atom[1], atom[2]
            lt, ut = (a, b) if fields_under(a, LOAD) else (b, a)
            if fields_under(lt, USER) and not (lt[0] == 'sel' or any(x[0] == 'sel' for x in subterms(lt))):
                return None
            if f == 'sources':
                ks = elem_keys(atom, (USER, 'sources'))
                kl = elem_keys(lt, (LOAD, 'sources'))
                whole = lt[0] in ('fld',) and not ks - {X} and 'elem' not in (lt[1][0],)
                if whole:
                    return self.w == 'same' and not self.removed and fresh(ut, USER, f)
                if fields_under(lt, USER):      # recorded hash selected by this source's path
                    if not fresh(ut, USER, f):
                        return None if ut[0] != 'fld' else False
                    if ks == {W}:
                        return self.w == 'same'
                    if ks == {O}:
                        return True
                    return True if self.w == 'same' else None
                return None
            c = self.change.get(f, 'same')
            if self.kinds.get(f) == 'bool':
                return None
            if lt[0] in ('uset', 'sorted') and c != 'same':
                # compared without order and repetition: the change may be a reordering
                return False if f in self.empties else None
            if lt[0] == 'size':
                return (False if f in self.empties else None) if c == 'list' else True
            if self.kinds[f] == 'info':
                fr = fresh(ut, USER, f)
                if ut[0] == 'fld' and ut[2] == 'path' and lt[0] == 'fld' and lt[2] == 'path':
                    return True if c in ('same', 'content') else None
                if not fr:
                    if fields_under(ut, USER) == {f} and ut[0] in ('fld', 'elem') and ut[2] in ('infos_', 'hash', X, W, O):
                        # fingerprints never computed: differ from recorded ones unless there is none
                        if self.user_empty(f, st):
                            return c != 'list'
                        return False
                    return None
                return c == 'same'
            return c == 'same'
        if k == 'fs' or k == 'exists':
            return None
        return None

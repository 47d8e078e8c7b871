"""Reader/writer for CBMC's binary symbol-table format (version 6), as emitted by
kani-compiler, and the `release` transformation that turns the dev-profile
encoding (overflow checks on) into the release-profile one (wrapping arithmetic,
masked shift distances).

An irep is a list [id, subs, named] with named a list of (tag, name, irep).
Sharing is kept by object identity.
"""
import json
import re
import sys

sys.setrecursionlimit(1000000)


class _Reader:
    def __init__(self, b):
        self.b, self.p, self.strs, self.ireps = b, 0, {}, {}

    def word(self):
        r = sh = 0
        while True:
            c = self.b[self.p]
            self.p += 1
            r |= (c & 0x7f) << sh
            sh += 7
            if not c & 0x80:
                return r

    def string(self):
        o = bytearray()
        while True:
            c = self.b[self.p]
            self.p += 1
            if c == 0:
                return bytes(o)
            if c == 0x5c:
                c = self.b[self.p]
                self.p += 1
            o.append(c)

    def sref(self):
        n = self.word()
        if n not in self.strs:
            self.strs[n] = self.string()
        return self.strs[n]

    def ref(self):
        n = self.word()
        got = self.ireps.get(n)
        if got is not None:
            return got
        i = [None, [], []]
        i[0] = self.sref()
        while True:
            c = self.b[self.p]
            self.p += 1
            if c == 0:
                break
            if c == 0x53:                                  # 'S'
                i[1].append(self.ref())
            elif c in (0x4e, 0x43):                        # 'N', 'C'
                i[2].append((c, self.sref(), self.ref()))
            else:
                raise ValueError('unexpected byte %d at %d' % (c, self.p))
        self.ireps[n] = i
        return i


class _Writer:
    def __init__(self):
        self.o, self.strs, self.ireps, self.keep = bytearray(), {}, {}, []

    def word(self, n):
        while True:
            c = n & 0x7f
            n >>= 7
            if n:
                self.o.append(c | 0x80)
            else:
                self.o.append(c)
                return

    def sref(self, s):
        n = self.strs.get(s)
        if n is not None:
            self.word(n)
            return
        n = self.strs[s] = len(self.strs)
        self.word(n)
        for c in s:
            if c in (0, 0x5c):
                self.o.append(0x5c)
            self.o.append(c)
        self.o.append(0)

    def ref(self, i):
        n = self.ireps.get(id(i))
        if n is not None:
            self.word(n)
            return
        n = self.ireps[id(i)] = len(self.ireps)
        self.keep.append(i)
        self.word(n)
        self.sref(i[0])
        for s in i[1]:
            self.o.append(0x53)
            self.ref(s)
        for c, k, v in i[2]:
            self.o.append(c)
            self.sref(k)
            self.ref(v)
        self.o.append(0)


def read(path):
    b = open(path, 'rb').read()
    if b[:4] != b'\x7fGBF':
        raise ValueError('not a goto binary: %s' % path)
    r = _Reader(b)
    r.p = 4
    if r.word() != 6:
        raise ValueError('unexpected goto-binary version')
    syms = []
    for _ in range(r.word()):
        t, v, loc = r.ref(), r.ref(), r.ref()
        names = [r.sref() for _ in range(5)]
        syms.append([t, v, loc, names, r.word(), r.word()])
    if r.b[r.p:] != b'\0':
        raise ValueError('goto binary carries converted functions')
    return syms


def write(path, syms):
    w = _Writer()
    w.o += b'\x7fGBF'
    w.word(6)
    w.word(len(syms))
    for t, v, loc, names, order, flags in syms:
        w.ref(t)
        w.ref(v)
        w.ref(loc)
        for s in names:
            w.sref(s)
        w.word(order)
        w.word(flags)
    w.word(0)
    open(path, 'wb').write(bytes(w.o))


def named(i, key):
    for _, k, v in i[2]:
        if k == key:
            return v
    return None


def stmt(i):
    s = named(i, b'statement')
    return s[0] if i[0] == b'code' and s is not None else None


def comment(i):
    loc = named(i, b'#source_location')
    if loc is None:
        return b''
    c = named(loc, b'comment')
    return c[0] if c is not None else b''


OVERFLOW = re.compile(
    rb'^attempt to (add|subtract|multiply|negate|shift left|shift right) with overflow$')


def functions(syms):
    """Pretty names of the functions with a body."""
    return [s[3][4].decode('utf-8', 'replace') for s in syms
            if s[1][0] == b'code' and s[0][0] == b'code']


def to_release(syms):
    """Drop every overflow check (assertion and the assumption that follows it)
    and mask shift distances, in place.  Returns (checks dropped, shifts masked)."""
    dropped = masked = 0
    seen = {}

    def const(width, value, ty):
        return [b'constant', [], [(0x4e, b'type', ty),
                                  (0x4e, b'value', [b'%X' % value, [], []])]]

    def width_of(ty):
        w = named(ty, b'width')
        return int(w[0]) if w is not None and ty[0] in (b'unsignedbv', b'signedbv') else None

    def walk(i):
        nonlocal dropped, masked
        if id(i) in seen:
            return
        seen[id(i)] = i
        if stmt(i) == b'block':
            out, k = [], 0
            subs = i[1]
            while k < len(subs):
                c = subs[k]
                if stmt(c) == b'assert' and OVERFLOW.match(comment(c)):
                    dropped += 1
                    nxt = subs[k + 1] if k + 1 < len(subs) else None
                    if nxt is None or stmt(nxt) != b'assume':
                        raise ValueError('overflow assertion without assumption')
                    k += 2
                    continue
                out.append(c)
                k += 1
            i[1] = out
        for s in i[1]:
            walk(s)
        for _, _, v in i[2]:
            walk(v)
        if i[0] in (b'shl', b'lshr', b'ashr') and len(i[1]) == 2:
            w = width_of(named(i, b'type'))
            rty = named(i[1][1], b'type')
            if w is None or rty is None or width_of(rty) is None or w & (w - 1):
                raise ValueError('shift of unexpected type')
            m = [b'bitand', [i[1][1], const(width_of(rty), w - 1, rty)],
                 [(0x4e, b'type', rty)]]
            seen[id(m)] = m
            i[1] = [i[1][0], m]
            masked += 1

    for s in syms:
        walk(s[1])
    return dropped, masked


# ---------------------------------------------------------------- Vec growth
GROW_ONE = 'alloc::raw_vec::RawVecInner::grow_one'
RESERVE = re.compile(r'alloc::raw_vec::RawVecInner::<A>::reserve::do_reserve_and_handle::<.*>')


def model_growth(syms):
    """Replace the growing of a full Vec (its capacity arithmetic, layouts and error
    paths) by a call of verif_grow in alloc.c, in place.  What Vec documents is kept:
    capacity >= what is needed afterwards, contents unchanged.  Returns the number of
    functions replaced."""
    def ty(width):
        return [b'unsignedbv', [], [(0x4e, b'width', [b'%d' % width, [], []])]]

    u64 = ty(64)
    u8p = [b'pointer', [ty(8)], [(0x4e, b'width', [b'64', [], []])]]
    unit = [b'struct_tag', [], [(0x4e, b'identifier', [b'tag-Unit', [], []])]]

    def const(v):
        return [b'constant', [], [(0x4e, b'type', u64), (0x4e, b'value', [b'%X' % v, [], []])]]

    def sym(name, t):
        return [b'symbol', [], [(0x4e, b'type', t), (0x4e, b'identifier', [name, [], []])]]

    def code(statement, subs):
        return [b'code', subs, [(0x4e, b'statement', [statement, [], []])]]

    tags = {s[3][0]: s for s in syms}

    def fields(t):
        s = tags[named(t, b'identifier')[0]]
        return [(named(c, b'name')[0], named(c, b'type')) for c in named(s[0], b'components')[1]]

    params = [u8p] + [u64] * 5
    fty = [b'code', [], [
        (0x4e, b'parameters', [b'', [[b'parameter', [], [
            (0x4e, b'type', t),
            (0x43, b'#identifier', [b'verif_grow::param_%d' % k, [], []]),
            (0x43, b'#base_name', [b'param_%d' % k, [], []])]]
            for k, t in enumerate(params)], []]),
        (0x4e, b'return_type', unit)]]
    n = 0
    for s in syms:
        name = s[3][4].decode('utf-8', 'replace')
        one = name == GROW_ONE
        if s[1][0] != b'code' or not (one or RESERVE.fullmatch(name)):
            continue
        ps = named(s[0], b'parameters')[1]
        args = [sym(named(p, b'#identifier')[0], named(p, b'type')) for p in ps]
        base = named(ps[0], b'type')[1][0]
        names = [f for f, _ in fields(base)]
        if sorted(names) != [b'alloc', b'cap', b'ptr'] or len(args) != (2 if one else 4):
            raise ValueError('RawVecInner is not as expected')
        words = [f for f in names if f != b'alloc']
        lay = named(ps[-1], b'type')
        lf = [f for f, _ in fields(lay)]
        if sorted(lf) != [b'align', b'size']:
            raise ValueError('Layout is not as expected')
        size = [b'member', [args[-1]], [(0x4e, b'type', u64),
                                        (0x4e, b'component_name', [b'size', [], []])]]
        cast = [b'typecast', [args[0]], [(0x4e, b'type', u8p)]]
        call = [b'side_effect', [
            sym(b'verif_grow', fty),
            [b'arguments', [cast, const(8 * words.index(b'cap')), const(8 * words.index(b'ptr')),
                            const(2 ** 64 - 1) if one else args[1],
                            const(1) if one else args[2], size], []]],
            [(0x4e, b'statement', [b'function_call', [], []]), (0x4e, b'type', unit)]]
        var = sym(s[3][0] + b'::1::var_0', unit)
        s[1] = code(b'block', [code(b'decl', [var]), code(b'assign', [var, call]),
                               code(b'return', [var])])
        n += 1
    if n:
        syms.append([fty, [b'nil', [], []], [b'nil', [], []],
                     [b'verif_grow', b'', b'verif_grow', b'C', b'verif_grow'], 0, 162])
        for k, t in enumerate(params):
            nm = b'verif_grow::param_%d' % k
            syms.append([t, [b'nil', [], []], [b'nil', [], []],
                         [nm, b'', b'param_%d' % k, b'C', b''], 0, 936])
    return n


# ---------------------------------------------------------------- io::Error
NEW_ERROR = re.compile(r'(alloc|std|core)::io::(error::)?(<impl std::io::Error>|Error)::new::<.*>')
SIMPLE_ERROR = '<std::io::Error as std::convert::From<std::io::ErrorKind>>::from'
DROP_ERROR = 'std::ptr::drop_glue::<std::io::Error>'


def model_errors(syms):
    """Errors carry their kind and no message, so that making and dropping them does
    not touch the heap, in place: Error::new(kind, message) becomes Error::from(kind),
    and dropping an Error nothing.  Returns the number of functions replaced."""
    def returned(body):
        found = []

        def walk(i):
            if stmt(i) == b'return':
                found.append(i[1][0])
            for s in i[1]:
                walk(s)
        walk(body)
        return found[0]

    def code(statement, subs):
        return [b'code', subs, [(0x4e, b'statement', [statement, [], []])]]

    simple = [s for s in syms if s[3][4].decode('utf-8', 'replace') == SIMPLE_ERROR]
    n = 0
    for s in syms:
        name = s[3][4].decode('utf-8', 'replace')
        if s[1][0] != b'code':
            continue
        if name == DROP_ERROR:
            s[1] = code(b'block', [code(b'return', [returned(s[1])])])
            n += 1
        elif NEW_ERROR.fullmatch(name):
            if not simple:
                raise ValueError('no Error::from(ErrorKind)')
            fn = simple[0]
            var = returned(s[1])
            p = named(s[0], b'parameters')[1][0]
            arg = [b'symbol', [], [(0x4e, b'type', named(p, b'type')),
                                   (0x4e, b'identifier', named(p, b'#identifier'))]]
            call = [b'side_effect', [
                [b'symbol', [], [(0x4e, b'type', fn[0]),
                                 (0x4e, b'identifier', [fn[3][0], [], []])]],
                [b'arguments', [arg], []]],
                [(0x4e, b'statement', [b'function_call', [], []]),
                 (0x4e, b'type', named(fn[0], b'return_type'))]]
            s[1] = code(b'block', [code(b'decl', [var]), code(b'assign', [var, call]),
                                   code(b'return', [var])])
            n += 1
    return n


FORMAT = re.compile(r'<.* as std::fmt::(Debug|Display)>::fmt(::.*)?')


def drop_formatting(syms):
    """Remove the bodies of Debug and Display implementations outside the crate: they
    are there for panic messages, which are never rendered. Should one be reached after
    all, that is an undefined function and no verdict. Returns the number removed."""
    n = 0
    for s in syms:
        name = s[3][4].decode('utf-8', 'replace')
        if s[1][0] == b'code' and FORMAT.fullmatch(name) and 'succinct' not in name:
            s[1] = [b'nil', [], []]
            n += 1
    return n


LIVE = re.compile(r'(vharness::)?nd::imp::nd_live')


def model_live(syms):
    """The harnesses' question how many heap bytes are allocated is answered by alloc.c:
    remove the function's body and return its symbol, if it is used."""
    for s in syms:
        if s[1][0] == b'code' and LIVE.fullmatch(s[3][4].decode('utf-8', 'replace')):
            s[1] = [b'nil', [], []]
            return s[3][0].decode()
    return None


def prune(syms, entry):
    """Remove the functions that nothing reachable from `entry` refers to."""
    by = {s[3][0]: s for s in syms}
    todo, live, seen = [entry], {entry}, set()
    while todo:
        s = by.get(todo.pop())
        if s is None:
            continue
        stack = [s[1]]
        while stack:
            i = stack.pop()
            if id(i) in seen:
                continue
            seen.add(id(i))
            if i[0] == b'symbol':
                n = named(i, b'identifier')
                if n is not None and n[0] in by and n[0] not in live:
                    live.add(n[0])
                    todo.append(n[0])
            stack += i[1]
            stack += [v for _, _, v in i[2]]
    dead = {s[3][0] for s in syms if (s[0][0] == b'code' or s[1][0] != b'nil')
            and s[3][0] not in live
            and not s[3][0].startswith(b'__CPROVER')}
    syms[:] = [s for s in syms if s[3][0] not in dead
               and s[3][0].split(b'::', 1)[0] not in dead]


def main(src, dst, mode, growth, entry):
    """gb.py IN OUT dev|rel 0|1 ENTRY: transform a symbol table, print what was done."""
    syms = read(src)
    r = {}
    if mode == 'rel':
        r['dropped'], r['masked'] = to_release(syms)
    if growth == '1':
        r['growth_modelled'] = model_growth(syms)
    r['errors_modelled'] = model_errors(syms)
    drop_formatting(syms)
    live = model_live(syms)
    prune(syms, entry.encode())
    if any(x[3][0].decode() == live for x in syms):
        r['live'] = live
    r['functions'] = [f for f in functions(syms) if 'succinct' in f]
    write(dst, syms)
    print(json.dumps(r))


if __name__ == '__main__':
    main(*sys.argv[1:])

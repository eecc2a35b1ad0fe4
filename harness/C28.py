# C28: histories over the Python interface of satyr and the reference model they are compared with.
import gc, json, sys, traceback
import mc
import _satyr3 as satyr

gc.disable()
THOROUGH = mc.thorough()
U64 = 2 ** 64 - 1


def explain(t, v, b):
    return '%s: %s\n%s' % (t.__name__, v, ''.join(traceback.format_exception(t, v, b if b is not None else None))[-1500:])


def pick(seq):
    return seq[mc.choose(len(seq))]


def bad(what, text):
    mc.fail(what, text)


def raises(expected, what, f, *args, **kw):
    """f must raise one of the expected exceptions."""
    mc.step()
    try:
        r = f(*args, **kw)
    except expected:
        mc.validated()
        return
    except Exception as e:
        bad('wrong exception|' + what, '%s raises %s (%s), expected %s' % (what, type(e).__name__, e, expected))
    bad('accepted|' + what, '%s returns %r, expected an exception' % (what, r))


def equal(what, got, want):
    mc.step()
    mc.validated()
    if got != want:
        bad(what, '%s: %r, expected %r' % (what, got, want))


# ---------------------------------------------------------------- attributes
class Index:
    def __index__(self):
        return 7


class NoTruth:
    def __bool__(self):
        raise RuntimeError('no truth')


class Str(str):
    pass


VALUES = {
    'string': [('x', 'x'), ('', ''), ('\u017elu\u0165 \U0001f600', '\u017elu\u0165 \U0001f600'), (Str('s'), 's'), ('y' * 300, 'y' * 300)],
    'uint16': [(0, 0), (1, 1), (65535, 65535), (True, 1), (Index(), 7)],
    'uint32': [(0, 0), (1, 1), (2 ** 31, 2 ** 31), (2 ** 32 - 1, 2 ** 32 - 1), (True, 1), (Index(), 7)],
    'uint64': [(0, 0), (1, 1), (2 ** 63, 2 ** 63), (U64 - 1, U64 - 1), (U64, None), (None, None), (True, 1), (Index(), 7)],
    'bool': [(True, True), (False, False), (2, True), ('', False), ([0], True), (None, False)],
    'readonly': [],
}
INVALID = {
    'string': [5, None, b'x', 'a\0b', '\0', '\ud800', ['x']],
    'uint16': [-1, 65536, 2 ** 64, -2 ** 70, 'x', None, 1.5],
    'uint32': [-1, 2 ** 32, 2 ** 64, -2 ** 70, 'x', None, 1.5],
    'uint64': [-1, -2, 2 ** 64, -2 ** 70, 'x', 1.5, []],
    'bool': [NoTruth()],
    'readonly': [1, 'x', None],
}
REFUSED = (TypeError, ValueError, OverflowError, AttributeError, NotImplementedError, RuntimeError)

S, U16, U32, U64K, B, RO = 'string', 'uint16', 'uint32', 'uint64', 'bool', 'readonly'
ATTRS = {
    'GdbFrame': {'function_name': S, 'function_type': S, 'number': U32, 'source_file': S, 'source_line': U32, 'signal_handler_called': B, 'address': U64K, 'library_name': S},
    'GdbThread': {'number': U32},
    'GdbSharedlib': {'start_address': U64K, 'end_address': U64K, 'soname': S},
    'CoreFrame': {'address': U64K, 'build_id': S, 'build_id_offset': U64K, 'function_name': S, 'file_name': S, 'fingerprint': S, 'fingerprint_hashed': B},
    'CoreThread': {},
    'CoreStacktrace': {'signal': U16, 'executable': S, 'only_crash_thread': B},
    'PythonFrame': {'file_name': S, 'special_file': B, 'file_line': U32, 'function_name': S, 'special_function': B, 'line_contents': S},
    'PythonStacktrace': {'exception_name': S},
    'RubyFrame': {'file_name': S, 'file_line': U32, 'special_function': B, 'function_name': S, 'block_level': U32, 'rescue_level': U32},
    'RubyStacktrace': {'exception_name': S},
    'JavaScriptFrame': {'file_name': S, 'file_line': U32, 'line_column': U32, 'function_name': S},
    'JavaScriptStacktrace': {'exception_name': S},
    'JavaFrame': {'name': S, 'file_name': S, 'file_line': U32, 'class_path': S, 'is_native': B, 'is_exception': B, 'message': S},
    'JavaThread': {'name': S},
    'JavaStacktrace': {},
    'KerneloopsFrame': {'reliable': B, 'address': U64K, 'function_name': S, 'function_offset': U64K, 'function_length': U64K, 'module_name': S, 'from_address': U64K,
                        'from_function_name': S, 'from_function_offset': U64K, 'from_function_length': U64K, 'from_module_name': S, 'special_stack': S},
    'Kerneloops': {'version': S, 'raw_oops': S, 'modules': RO, 'taint_flags': RO},
    'OperatingSystem': {'name': S, 'version': S, 'architecture': S, 'cpe': S, 'uptime': U64K},
    'RpmPackage': {'name': S, 'epoch': U32, 'version': S, 'release': S, 'architecture': S, 'install_time': U64K},
    'Report': {'reporter_name': S, 'reporter_version': S, 'user_root': B, 'user_local': B, 'component_name': S, 'serial': U32, 'report_version': RO, 'auth': RO},
}
ENUMS = {'GdbSharedlib': ('symbols', (satyr.SYMS_OK, satyr.SYMS_NOT_FOUND, satyr.SYMS_WRONG)), 'RpmPackage': ('role', (satyr.ROLE_UNKNOWN, satyr.ROLE_AFFECTED))}
CLASSES = sorted(ATTRS)
MAX_LEVEL = 5  # a rescue level is written out that many times


def read(o, attrs):
    return {a: getattr(o, a) for a in attrs}


def attributes():
    """Every history of two or three assignments and deletions on an object of every class."""
    cls = pick(CLASSES)
    table = ATTRS[cls]
    names = sorted(table) + (['<enum>'] if cls in ENUMS else [])
    if not names:
        return
    o = getattr(satyr, cls)()
    attrs = sorted(table) + ([ENUMS[cls][0]] if cls in ENUMS else [])
    model = read(o, attrs)
    todo = []
    for i in range(2):
        n = pick(names)
        if n == '<enum>':
            n, allowed = ENUMS[cls]
            values, invalid = [(v, v) for v in allowed], [max(allowed) + 1, -1, 2 ** 40, 2 ** 70, 'x', None]
        else:
            values, invalid = VALUES[table[n]], INVALID[table[n]]
        if n == 'rescue_level':
            values = [v for v in values if v[1] <= MAX_LEVEL or v[1] == 7]
        k = mc.choose(len(values) + len(invalid) + 1)
        what = '%s.%s' % (cls, n)
        if k < len(values):
            todo.append('%s = %r' % (n, values[k][0]))
            mc.describe(cls + ': ' + '; '.join(todo))
            setattr(o, n, values[k][0])
            model[n] = values[k][1]
        elif k < len(values) + len(invalid):
            v = invalid[k - len(values)]
            todo.append('%s = %r' % (n, v))
            mc.describe(cls + ': ' + '; '.join(todo))
            raises(REFUSED, what + ' = %r' % (v,), setattr, o, n, v)
        else:
            todo.append('del ' + n)
            mc.describe(cls + ': ' + '; '.join(todo))
            raises(REFUSED, 'del ' + what, delattr, o, n)
        equal('attributes|%s after %s' % (cls, '; '.join(todo)), read(o, attrs), model)
    str(o)
    if hasattr(o, 'dup'):
        d = o.dup()
        if type(d) is not type(o):
            bad('dup type|' + cls, 'dup() of %s is %s' % (cls, type(d).__name__))
        equal('dup|%s after %s' % (cls, '; '.join(todo)), read(d, attrs), model)
        if hasattr(o, 'equals'):
            equal('dup equals|%s after %s' % (cls, '; '.join(todo)), o.equals(d), True)
        # the copy is independent
        for a in table:
            if table[a] == S:
                setattr(d, a, 'changed')
        equal('dup shares|%s after %s' % (cls, '; '.join(todo)), read(o, attrs), model)
        del o
        str(d)
        if 'Frame' in cls:
            d.short_string()
    mc.outcome(cls + repr(sorted(model.items(), key=str)))
    mc.nontrivial()


# ---------------------------------------------------------------- frames of one thread
THREADS = ['CoreThread', 'GdbThread', 'JavaThread', 'PythonStacktrace', 'RubyStacktrace', 'JavaScriptStacktrace', 'Kerneloops']
FRAME = {'CoreThread': 'CoreFrame', 'GdbThread': 'GdbFrame', 'JavaThread': 'JavaFrame', 'PythonStacktrace': 'PythonFrame', 'RubyStacktrace': 'RubyFrame',
         'JavaScriptStacktrace': 'JavaScriptFrame', 'Kerneloops': 'KerneloopsFrame'}
# attribute that tells frames apart, together with others that make a frame meaningful
LABEL = {'CoreFrame': 'function_name', 'GdbFrame': 'function_name', 'JavaFrame': 'name', 'PythonFrame': 'function_name', 'RubyFrame': 'function_name',
         'JavaScriptFrame': 'function_name', 'KerneloopsFrame': 'function_name'}


HASHED_BY_FILE = ('PythonFrame', 'RubyFrame', 'JavaScriptFrame')


def new_frame(cls, label):
    f = getattr(satyr, cls)()
    setattr(f, LABEL[cls], label)
    if cls in ('JavaFrame', 'PythonFrame', 'RubyFrame', 'JavaScriptFrame', 'CoreFrame'):
        f.file_name = 'file' + (label if cls in HASHED_BY_FILE else '')
    if cls == 'KerneloopsFrame':
        f.reliable = True
    return f


def labels(frames):
    return [getattr(f, LABEL[type(f).__name__]) for f in frames]


def native_labels(thread):
    """Frames of the native thread: those a copy of it is made of."""
    return labels(thread.dup().frames)


class Junk:
    pass


LIST_OPS = ['append0', 'append1', 'append2', 'insert0', 'pop', 'pop0', 'reverse', 'clear', 'new', 'slice', 'junk', 'other', 'setbad', 'del', 'label', 'forget', 'alias']


def edit_list(owner, attr, pool, mk, op, refused):
    """One edit of the list owner.attr; pool holds the items by number. Returns the text of the edit."""
    items = getattr(owner, attr)
    if op.startswith('append'):
        items.append(pool[int(op[6:])])
    elif op == 'insert0':
        items.insert(0, pool[0])
    elif op in ('pop', 'pop0'):
        if items:
            items.pop(0 if op == 'pop0' else -1)
    elif op == 'reverse':
        items.reverse()
    elif op == 'clear':
        del items[:]
    elif op == 'new':
        setattr(owner, attr, [pool[2], pool[1]])
    elif op == 'slice':
        setattr(owner, attr, items[:1])
    elif op == 'junk':
        items.append(Junk())
    elif op == 'other':
        items.append(refused)
    elif op == 'setbad':
        v = pick([None, (), 'x', 5])
        before = items
        raises(TypeError, '%s = %r' % (attr, v), setattr, owner, attr, v)
        if getattr(owner, attr) is not before:
            bad('list replaced|' + attr, 'a refused value replaced the list')
    elif op == 'del':
        raises(REFUSED, 'del ' + attr, delattr, owner, attr)
        if getattr(owner, attr) is not items:
            bad('list replaced|' + attr, 'a refused deletion replaced the list')


def contents_error(items, cls):
    """Exceptions one of which the list must cause when it is used, or None."""
    errs = ()
    if any(type(i) is not cls for i in items):
        errs += (TypeError,)
    if len(set(map(id, items))) < len(items):
        errs += (ValueError,)
    return errs or None


def use_thread(t, others, hist):
    """Everything that looks at the native thread must see exactly the current list."""
    cls = type(t).__name__
    fcls = getattr(satyr, FRAME[cls])
    err = contents_error(t.frames, fcls)
    single = cls not in ('CoreThread', 'GdbThread', 'JavaThread')
    uses = [('dup', lambda: t.dup()), ('equals', lambda: t.equals(others)), ('distance', lambda: t.distance(others)), ('duphash', lambda: t.get_duphash(flags=satyr.DUPHASH_NOHASH | satyr.DUPHASH_NONORMALIZE))]
    if single:
        uses += [('short text', lambda: t.to_short_text()), ('bthash', lambda: t.get_bthash(satyr.BTHASH_NOHASH))]
    if hasattr(t, 'quality'):
        uses += [('quality', lambda: t.quality()), ('format_funs', lambda: t.format_funs())]
    if err:
        for n, f in uses:
            raises(err, '%s %s with %s' % (cls, n, hist), f)
        str(t)
        return
    want = labels(t.frames)
    equal('native frames|%s after %s' % (cls, hist), native_labels(t), want)
    ids = [id(f) for f in t.frames]
    text = t.get_duphash(flags=satyr.DUPHASH_NOHASH | satyr.DUPHASH_NONORMALIZE) if want else ''
    pos = -1
    for l in want if FRAME[cls] not in HASHED_BY_FILE else ['%s:%d' % (f.file_name, f.file_line) for f in t.frames]:
        pos = text.find(l, pos + 1)
        if pos < 0:
            bad('duphash|%s after %s' % (cls, hist), 'the hashed text %r does not hold the frames %r in order' % (text, want))
    equal('equals|%s after %s' % (cls, hist), t.equals(others), want == labels(others.frames))
    mine, their = want, labels(others.frames)
    if not (mine or their) or mine == their:
        equal('distance|%s after %s' % (cls, hist), t.distance(others), 0.0)
    elif not set(mine) & set(their):
        equal('distance|%s after %s' % (cls, hist), t.distance(others), 1.0)
    if single:
        text = t.to_short_text()
        for l in want:
            if l not in text:
                bad('short text|%s after %s' % (cls, hist), '%r is missing in %r' % (l, text))
        equal('short text lines|%s after %s' % (cls, hist), text.count('\n'), len(want))
        if want:
            t.get_bthash(satyr.BTHASH_NOHASH)
    if hasattr(t, 'format_funs'):
        got = [l.split(' ')[0] for l in t.format_funs().split('\n') if l]
        equal('format_funs|%s after %s' % (cls, hist), got, want)
        t.quality(), t.quality_counts()
    if ids != [id(f) for f in t.frames]:
        bad('list changed|%s after %s' % (cls, hist), 'looking at the thread changed its list of frames')
    str(t)


def frames():
    """Histories of edits of the frames of a thread; another thread shares frames with it."""
    cls = pick(THREADS)
    T = getattr(satyr, cls)
    fcls = FRAME[cls]
    pool = [new_frame(fcls, 'f%d' % i) for i in range(3)]
    t, others = T(), T()
    others.frames = [pool[1], pool[0]]
    wrong = satyr.GdbFrame() if fcls != 'GdbFrame' else satyr.CoreFrame()
    hist = ''
    for i in range(4 if THOROUGH else 3):
        op = pick(LIST_OPS)
        if i == 0 and op in ('pop', 'pop0', 'reverse', 'clear', 'slice'):
            mc.prune()
        hist += ' ' + op
        mc.describe(cls + hist)
        if op == 'label':
            setattr(pool[0], LABEL[fcls], 'g%d' % i)
        elif op == 'forget':
            # only the lists keep the frame alive
            pool[1] = new_frame(fcls, 'n%d' % i)
        elif op == 'alias':
            t = t.dup() if contents_error(t.frames, getattr(satyr, fcls)) is None else t
        else:
            edit_list(t, 'frames', pool, None, op, wrong)
        use_thread(t, others, hist)
        mc.state(cls + repr(len(t.frames)))
    # frames outlive the thread
    rest = [f for f in t.frames if type(f).__name__ == fcls]
    del t
    for f in rest:
        str(f), f.short_string(), f.dup(), f.equals(pool[0])
    del rest, pool
    use_thread(others, others, 'others after' + hist)
    mc.outcome(cls + hist)
    mc.nontrivial()


# ---------------------------------------------------------------- threads of one stack trace
def multi(cls):
    return {'GdbStacktrace': 'GdbThread', 'JavaStacktrace': 'JavaThread', 'CoreStacktrace': 'CoreThread'}[cls]


def native_threads(s):
    return [labels(t.frames) for t in s.dup().threads]


def threads():
    """Histories of edits of the threads of a stack trace and of their frames."""
    cls = pick(['GdbStacktrace', 'JavaStacktrace', 'CoreStacktrace'])
    tcls = multi(cls)
    fcls = FRAME[tcls]
    T = getattr(satyr, tcls)
    frames_ = [new_frame(fcls, 'f%d' % i) for i in range(3)]
    pool = []
    for i in range(3):
        t = T()
        t.frames = [frames_[i]] if i < 2 else [new_frame(fcls, 'h'), new_frame(fcls, 'i')]
        pool.append(t)
    s = getattr(satyr, cls)()
    wrong = satyr.GdbThread() if tcls != 'GdbThread' else satyr.CoreThread()
    hist = ''
    ops = LIST_OPS + ['share', 'badframe', 'popframe', 'orphan']
    for i in range(4 if THOROUGH else 3):
        op = pick(ops)
        if i == 0 and op in ('pop', 'pop0', 'reverse', 'clear', 'slice'):
            mc.prune()
        hist += ' ' + op
        mc.describe(cls + hist)
        if op == 'label':
            setattr(frames_[0], LABEL[fcls], 'g%d' % i)
        elif op == 'forget':
            pool[1] = T()
            frames_[1] = new_frame(fcls, 'n%d' % i)
        elif op == 'alias':
            if not problem(s):
                s = s.dup()
        elif op == 'share':
            pool[2].frames.append(frames_[0])
        elif op == 'badframe':
            pool[0].frames.append(Junk())
        elif op == 'popframe':
            if pool[0].frames:
                pool[0].frames.pop()
        elif op == 'orphan':
            # the threads live on without the stack trace
            old = s.threads
            s = getattr(satyr, cls)()
            s.threads = old
        else:
            edit_list(s, 'threads', pool, None, op, wrong)
        use_stacktrace(s, hist)
    rest = [t for t in s.threads if type(t).__name__ == tcls]
    del s
    for t in rest:
        if not contents_error(t.frames, getattr(satyr, fcls)):
            t.dup(), t.distance(t), str(t)
    mc.outcome(cls + hist)
    mc.nontrivial()


def problem(s):
    """The exception any use of the stack trace must raise."""
    tcls = multi(type(s).__name__)
    err = contents_error(s.threads, getattr(satyr, tcls))
    if err:
        # threads of the right kind may have bad frames besides
        return (TypeError, ValueError)
    seen, errs = set(), []
    for t in s.threads:
        e = contents_error(t.frames, getattr(satyr, FRAME[tcls]))
        if e:
            errs += e
        for f in t.frames:
            if id(f) in seen:
                errs.append(ValueError)
            seen.add(id(f))
    return tuple(errs)


def use_stacktrace(s, hist):
    cls = type(s).__name__
    errs = problem(s)
    before = [id(t) for t in s.threads]
    if errs:
        raises(errs, '%s dup with%s' % (cls, hist), s.dup)
        raises(errs, '%s to_short_text with%s' % (cls, hist), s.to_short_text)
        raises(errs, '%s get_bthash with%s' % (cls, hist), s.get_bthash)
        raises(errs, '%s crash_thread with%s' % (cls, hist), getattr, s, 'crash_thread')
    else:
        want = [labels(t.frames) for t in s.threads]
        equal('native threads|%s after%s' % (cls, hist), native_threads(s), want)
        crash = s.crash_thread
        if cls == 'JavaStacktrace':
            equal('crash thread|%s after%s' % (cls, hist), crash is (s.threads[0] if s.threads else None), True)
        elif cls == 'CoreStacktrace':
            equal('crash thread|%s after%s' % (cls, hist), crash, s.threads[0] if len(s.threads) == 1 else None)
        elif len(s.threads) == 1:
            equal('crash thread|%s after%s' % (cls, hist), crash is s.threads[0], True)
        if crash is None:
            raises(LookupError, '%s to_short_text with%s' % (cls, hist), s.to_short_text)
        else:
            text = s.to_short_text()
            for l in labels(crash.frames):
                if l not in text:
                    bad('short text|%s after%s' % (cls, hist), '%r is missing in %r' % (l, text))
            equal('short text lines|%s after%s' % (cls, hist), text.count('\n'), len(crash.frames) + (cls == 'GdbStacktrace'))
        try:
            s.get_bthash(satyr.BTHASH_NOHASH)
        except RuntimeError:
            pass
        raises(REFUSED, '%s crash_thread = None' % cls, setattr, s, 'crash_thread', None)
    str(s)
    if before != [id(t) for t in s.threads]:
        bad('list changed|%s after%s' % (cls, hist), 'looking at the stack trace changed its list of threads')


# ---------------------------------------------------------------- methods of GDB stack traces
def gdb():
    """Histories of the methods of GDB stack traces between edits."""
    s = satyr.GdbStacktrace()
    n = mc.choose(3)
    keep = []
    for i in range(n):
        t = satyr.GdbThread()
        t.number = i + 1
        for j in range(mc.choose(3)):
            f = new_frame('GdbFrame', 't%df%d' % (i, j))
            f.address = 0x1000 * (i + 1) + 0x10 * j
            f.number = j
            t.frames.append(f)
        s.threads.append(t)
        keep.append(t)
    libs = []
    for i in range(mc.choose(3)):
        l = satyr.GdbSharedlib()
        l.start_address, l.end_address = (0x1000, 0x100f) if i == 0 else (0x1000, 0x2fff)
        if i == 0 or mc.choose(2):
            l.soname = '/lib/lib%d.so.6' % i
        libs.append(l)
    s.libs = libs
    hist = '%d threads %r, %d libraries' % (n, [len(t.frames) for t in keep], len(libs))
    ops = ['find', 'limit1', 'limit2', 'limit0', 'limit-1', 'normalize', 'libnames', 'address', 'text', 'dup', 'quality', 'drop', 'edit', 'badlib', 'duplib', 'dellib', 'keep', 'setcrash']
    held = []
    for i in range(3 if THOROUGH else 2):
        op = pick(ops)
        hist += ' ' + op
        mc.describe(hist)
        errs = problem(s)
        lerr = contents_error(s.libs, satyr.GdbSharedlib)
        if lerr:
            errs = tuple(errs) + lerr
        want = [labels(t.frames) for t in s.threads] if not problem(s) else None
        f = {'find': s.find_crash_frame, 'limit1': lambda: s.limit_frame_depth(1), 'limit2': lambda: s.limit_frame_depth(2), 'normalize': s.normalize, 'libnames': s.set_libnames,
             'address': lambda: s.find_address(0x1005), 'text': s.to_short_text, 'dup': s.dup, 'quality': lambda: (s.quality_simple(), s.quality_complex())}.get(op)
        if errs and f:
            raises(errs, 'gdb %s' % hist, f)
        elif op in ('limit0', 'limit-1'):
            if not errs:
                raises(ValueError, 'gdb %s' % hist, s.limit_frame_depth, int(op[5:]))
        elif op == 'find':
            crash = s.crash_thread
            before = s.crashframe
            if crash is None or not crash.frames:
                raises(LookupError, 'gdb %s' % hist, f)
                equal('crash frame kept|' + hist, s.crashframe is before, True)
            else:
                c = f()
                equal('crash frame|' + hist, (c.function_name, s.crashframe is c), (crash.frames[0].function_name, True))
                held.append(c)
        elif op in ('limit1', 'limit2'):
            f()
            want = [w[:int(op[5:])] for w in want]
            equal('limited|' + hist, [labels(t.frames) for t in s.threads], want)
            equal('limited native|' + hist, native_threads(s), want)
        elif op == 'normalize':
            f()
            equal('normalized|' + hist, [labels(t.frames) for t in s.threads], want)
            equal('normalized native|' + hist, native_threads(s), want)
        elif op == 'libnames':
            before = {id(x): x.library_name for t in s.threads for x in t.frames}
            f()
            for t in s.threads:
                for x in t.frames:
                    lib = next((l for l in s.libs if x.address is not None and l.start_address <= x.address <= l.end_address), None)
                    name = lib.soname.split('/')[-1].split('.so')[0] + '.so' if lib is not None and lib.soname else before[id(x)]
                    equal('library name|' + hist, x.library_name, name)
        elif op == 'address':
            for a in (0x1000, 0x100f, 0x1010, 0x2fff, 0x3000, 0, U64 - 1, 2 ** 63):
                lib = next((l for l in s.libs if l.start_address <= a <= l.end_address), None)
                equal('address %d|%s' % (a, hist), s.find_address(a) is lib, True)
            raises(TypeError, 'find_address(None)', s.find_address, None)
            equal('address none|' + hist, s.find_address(U64), None)
        elif op == 'text':
            crash = s.crash_thread
            if crash is None:
                raises(LookupError, 'gdb %s' % hist, f)
            else:
                text = f()
                for l in labels(crash.frames):
                    if l not in text:
                        bad('short text|' + hist, '%r is missing in %r' % (l, text))
                equal('short text limited|' + hist, s.to_short_text(1).count('\n'), 1 + min(1, len(crash.frames)))
        elif op == 'dup':
            d = f()
            equal('dup|' + hist, [labels(t.frames) for t in d.threads], want)
            equal('dup libraries|' + hist, [(l.start_address, l.end_address, l.soname) for l in d.libs], [(l.start_address, l.end_address, l.soname) for l in s.libs])
            if s.crashframe is None:
                equal('dup crash frame|' + hist, d.crashframe, None)
            else:
                equal('dup crash frame|' + hist, (d.crashframe is not s.crashframe, d.crashframe.function_name), (True, s.crashframe.function_name))
            held.append(s)
            s = d
        elif op == 'quality':
            q = f()
            if not (0 <= q[0] <= 1 and 0 <= q[1] <= 1):
                bad('quality|' + hist, 'qualities are %r' % (q,))
        elif op == 'drop':
            if s.threads:
                s.threads.pop(0)
        elif op == 'edit':
            if s.threads and s.threads[0].frames:
                s.threads[0].frames.pop(0)
            else:
                t = satyr.GdbThread('f lib\ng lib\n', True)
                s.threads.append(t)
        elif op == 'badlib':
            s.libs.append(5)
        elif op == 'duplib':
            s.libs = s.libs[:1] * 2
        elif op == 'dellib':
            raises(REFUSED, 'del libs', delattr, s, 'libs')
        elif op == 'keep':
            held.extend(s.threads)
            held.append(s.threads)
        elif op == 'setcrash':
            raises(REFUSED, 'crashframe = None', setattr, s, 'crashframe', None)
            raises(REFUSED, 'del crashframe', delattr, s, 'crashframe')
        if not problem(s) and not contents_error(s.libs, satyr.GdbSharedlib):
            equal('native|' + hist, native_threads(s), [labels(t.frames) for t in s.threads])
    c = s.crashframe
    del s
    for o in held + keep + [c]:
        str(o)
        if type(o) is satyr.GdbThread and not contents_error(o.frames, satyr.GdbFrame):
            o.dup()
        if type(o) is satyr.GdbStacktrace and not problem(o) and not contents_error(o.libs, satyr.GdbSharedlib):
            o.dup()
    mc.outcome(hist)
    mc.nontrivial()


# ---------------------------------------------------------------- crash thread of core stack traces
def core_json(n, crash):
    return json.dumps({'signal': 11, 'executable': '/x', 'stacktrace': [dict({'frames': [{'address': 16, 'build_id': 'ab', 'build_id_offset': 1, 'function_name': 'c%d' % i, 'file_name': 'x'}]},
                                                                          **({'crash_thread': True} if i == crash else {})) for i in range(n)]})


def core():
    """The crash thread follows the thread object through edits of the list."""
    n = mc.choose(3) + 1
    crash = mc.choose(n + 1)
    s = pick([satyr.CoreStacktrace, satyr.CoreStacktrace.from_json])(core_json(n, crash))
    ths = list(s.threads)
    mine = ths[crash] if crash < n else None
    hist = '%d threads crash %d' % (n, crash)
    for i in range(4 if THOROUGH else 3):
        op = pick(['pop0', 'pop', 'remove', 'add', 'new', 'reverse', 'clear', 'dup', 'forget', 'restore'])
        hist += ' ' + op
        mc.describe(hist)
        if op in ('pop', 'pop0'):
            if s.threads:
                s.threads.pop(0 if op == 'pop0' else -1)
        elif op == 'remove':
            if mine is not None and any(t is mine for t in s.threads):
                s.threads = [t for t in s.threads if t is not mine]
        elif op == 'add':
            if mine is not None and not any(t is mine for t in s.threads):
                s.threads.append(mine)
        elif op == 'new':
            t = satyr.CoreThread()
            t.frames.append(new_frame('CoreFrame', 'new'))
            s.threads.append(t)
        elif op == 'reverse':
            s.threads.reverse()
        elif op == 'clear':
            s.threads = []
        elif op == 'forget':
            ths = []
        elif op == 'restore':
            if ths:
                s.threads = list(ths)
        elif op == 'dup':
            before = [labels(t.frames) for t in s.threads]
            k = next((i for i, t in enumerate(s.threads) if t is mine), None)
            s = s.dup()
            ths = list(s.threads)
            mine = s.threads[k] if k is not None else None
            equal('dup|' + hist, [labels(t.frames) for t in s.threads], before)
        present = mine is not None and any(t is mine for t in s.threads)
        expected = mine if present else (s.threads[0] if len(s.threads) == 1 else None)
        equal('crash thread|' + hist, s.crash_thread is expected, True)
        d = s.dup()
        equal('native|' + hist, [labels(t.frames) for t in d.threads], [labels(t.frames) for t in s.threads])
        k = next((i for i, t in enumerate(s.threads) if t is expected), None)
        equal('native crash|' + hist, d.crash_thread is (d.threads[k] if k is not None else None), True)
        r = satyr.Report()
        r.report_type = 'core'
        r.stacktrace = s
        j = json.loads(r.to_json())['problem'].get('stacktrace')
        equal('json|' + hist, [([f['function_name'] for f in t['frames']], t.get('crash_thread', False)) for t in j or []], [(labels(t.frames), t is (expected or s.threads[0])) for t in s.threads])
        str(s)
    mc.outcome(hist)
    mc.nontrivial()


# ---------------------------------------------------------------- reports
KINDS = {'core': 'CoreStacktrace', 'python': 'PythonStacktrace', 'kerneloops': 'Kerneloops', 'java': 'JavaStacktrace', 'ruby': 'RubyStacktrace', 'javascript': 'JavaScriptStacktrace'}


def make_stacktrace(cls):
    s = getattr(satyr, cls)()
    if cls in ('CoreStacktrace', 'JavaStacktrace'):
        t = getattr(satyr, multi(cls))()
        t.frames.append(new_frame(FRAME[multi(cls)], 'fn'))
        s.threads.append(t)
    else:
        s.frames.append(new_frame(FRAME[cls], 'fn'))
    if hasattr(s, 'exception_name'):
        s.exception_name = 'E'
    if cls == 'Kerneloops':
        s.version = '3'
        s.raw_oops = 'oops'
    return s


def count(j, label):
    return json.dumps(j).count('"%s"' % label)


def report():
    """Reports serialize exactly the objects assigned to them."""
    r = satyr.Report()
    kind = pick(sorted(KINDS) + ['gdb', 'invalid'])
    st = {k: make_stacktrace(KINDS[k]) for k in (kind, 'python') if k in KINDS}
    model = {'type': 'invalid', 'os': {}, 'stack': None, 'fn': {k: 1 for k in st}, 'reporter': None}
    hist = kind
    ops = ['type', 'type2', 'badtype', 'stack', 'stack2', 'nostack', 'junkstack', 'delstack', 'os', 'noos', 'junkos', 'delos', 'reporter', 'addframe', 'badframe', 'popframe', 'reload', 'drop']
    junk = {'os': False, 'stack': False}
    for i in range(4 if THOROUGH else 3):
        op = pick(ops)
        hist += ' ' + op
        mc.describe(hist)
        if op == 'type':
            if kind != 'invalid':
                r.report_type = kind
                model['type'] = kind
            else:
                raises(ValueError, 'report_type = invalid', setattr, r, 'report_type', 'invalid')
        elif op == 'type2':
            r.report_type = 'python'
            model['type'] = 'python'
        elif op == 'badtype':
            raises(REFUSED, 'report_type', setattr, r, 'report_type', pick(['', 'Core', 'x', 5, None, '\ud800']))
            raises(REFUSED, 'del report_type', delattr, r, 'report_type')
        elif op in ('stack', 'stack2'):
            k = kind if op == 'stack' else 'python'
            if k in st:
                r.stacktrace = st[k]
                model['stack'] = k
                junk['stack'] = False
        elif op == 'nostack':
            r.stacktrace = None
            model['stack'] = None
            junk['stack'] = False
        elif op == 'junkstack':
            r.stacktrace = Junk()
            junk['stack'] = True
        elif op == 'delstack':
            raises(REFUSED, 'del stacktrace', delattr, r, 'stacktrace')
        elif op == 'os':
            o = satyr.OperatingSystem('fedora', '17', 'x86_64')
            r.operating_system = o
            model['os'] = {'name': 'fedora', 'version': '17', 'architecture': 'x86_64'}
            junk['os'] = False
        elif op == 'noos':
            r.operating_system = None
            model['os'] = None
            junk['os'] = False
        elif op == 'junkos':
            r.operating_system = Junk()
            junk['os'] = True
        elif op == 'delos':
            raises(REFUSED, 'del operating_system', delattr, r, 'operating_system')
        elif op == 'reporter':
            r.reporter_name = 'me'
            r.reporter_version = 'v%d' % i
            r.component_name = 'comp'
            model['reporter'] = {'name': 'me', 'version': 'v%d' % i}
        elif op in ('addframe', 'badframe', 'popframe'):
            k = model['stack']
            if k is None:
                mc.prune()
            s = st[k]
            t = s.threads[0] if hasattr(s, 'threads') else s
            if op == 'addframe':
                t.frames.append(new_frame(FRAME[type(t).__name__], 'fn'))
            elif op == 'badframe':
                t.frames.append(5)
            elif t.frames:
                t.frames.pop()
        elif op == 'reload':
            if not expected_error(r, model, junk, st):
                text = r.to_json()
                r2 = satyr.Report(text)
                # a missing stack trace is read as an empty one, which changes the reason
                if has_stack(model):
                    equal('reloaded|' + hist, json.loads(r2.to_json()), json.loads(text))
                equal('reloaded type|' + hist, r2.report_type, r.report_type if r.report_type != 'gdb' else 'invalid')
                equal('reloaded stack trace|' + hist, type(r2.stacktrace), getattr(satyr, KINDS[model['type']]) if model['type'] in KINDS else type(None))
        elif op == 'drop':
            # the report alone keeps its stack trace alive
            r.stacktrace, r.operating_system = r.stacktrace, r.operating_system
            gc_safe = r.stacktrace
            str(gc_safe)
        err = expected_error(r, model, junk, st)
        if err:
            raises(err, 'report to_json with %s' % hist, r.to_json)
        else:
            j = json.loads(r.to_json())
            # there is no JSON form of GDB stack traces
            equal('type|' + hist, j['problem']['type'], model['type'] if model['type'] != 'gdb' else 'invalid')
            os_ = j.get('os')
            equal('os|' + hist, {k: os_[k] for k in ('name', 'version', 'architecture') if k in os_} if os_ else {}, model['os'] or {})
            if model['reporter']:
                equal('reporter|' + hist, (j['reporter'], j['problem'].get('component')), (model['reporter'], 'comp'))
            n = 0
            if has_stack(model):
                s = st[model['stack']]
                n = len((s.threads[0] if hasattr(s, 'threads') else s).frames)
            equal('frames|' + hist, count(j, 'fn'), n)
        str(r)
        equal('report type|' + hist, r.report_type, model['type'])
    mc.outcome(hist)
    mc.nontrivial()


def has_stack(model):
    return model['stack'] is not None and model['type'] in KINDS


def expected_error(r, model, junk, st):
    if junk['os']:
        return TypeError
    if model['type'] not in KINDS:
        return None
    if junk['stack']:
        return TypeError
    if model['stack'] is None:
        return None
    if KINDS[model['type']] != KINDS[model['stack']]:
        return TypeError
    s = st[model['stack']]
    t = s.threads[0] if hasattr(s, 'threads') else s
    return contents_error(t.frames, getattr(satyr, FRAME[type(t).__name__]))


def packages():
    """Packages of a report."""
    r, r2 = satyr.Report(), satyr.Report()
    r.report_type = r2.report_type = 'python'
    pool = [satyr.RpmPackage('p%d' % i, i, '1', '2', 'noarch') for i in range(2)] + [satyr.RpmPackage('p2')]
    pool[2].version, pool[2].release, pool[2].architecture = '3', '4', 'x86_64'
    equal('default epoch', pool[2].epoch, 0)
    equal('largest epoch', satyr.RpmPackage('p', 2 ** 32 - 1).epoch, 2 ** 32 - 1)
    for v in INVALID['uint32']:
        raises(REFUSED, 'RpmPackage with epoch %r' % (v,), satyr.RpmPackage, 'p', v)
    r2.packages = [pool[0]]
    hist = ''
    for i in range(4 if THOROUGH else 3):
        op = pick(LIST_OPS)
        if i == 0 and op in ('pop', 'pop0', 'reverse', 'clear', 'slice'):
            mc.prune()
        hist += ' ' + op
        mc.describe('packages' + hist)
        if op == 'label':
            pool[0].name = 'q%d' % i
            pool[0].role = satyr.ROLE_AFFECTED
        elif op == 'forget':
            pool[1] = satyr.RpmPackage('n%d' % i, 0, '1', '1', 'noarch')
        elif op == 'alias':
            if not contents_error(r.packages, satyr.RpmPackage):
                text = r.to_json()
                r = satyr.Report(text)
        else:
            edit_list(r, 'packages', pool, None, op, satyr.GdbFrame())
        err = contents_error(r.packages, satyr.RpmPackage)
        if err:
            raises(err, 'packages with' + hist, r.to_json)
        else:
            j = json.loads(r.to_json()).get('packages') or []
            equal('packages|' + hist, [(p['name'], p.get('epoch'), p['version'], p['release'], p['architecture'], p.get('package_role') == 'affected') for p in j],
                  [(p.name, p.epoch, p.version, p.release, p.architecture, p.role == satyr.ROLE_AFFECTED) for p in r.packages])
        j = json.loads(r2.to_json())['packages']
        equal('packages of the other report|' + hist, [p['name'] for p in j], [pool[0].name])
        for p in r.packages:
            str(p)
    rest = list(r.packages)
    del r
    for p in rest:
        str(p)
    mc.outcome(hist)
    mc.nontrivial()


# ---------------------------------------------------------------- distances
FUNS = ['', 'f lib\n', 'g lib\n', 'f lib\ng lib\n', 'h lib\nf lib\n']
DISTS = [satyr.DISTANCE_LEVENSHTEIN, satyr.DISTANCE_JACCARD, satyr.DISTANCE_DAMERAU_LEVENSHTEIN, satyr.DISTANCE_JARO_WINKLER]


def some_threads(n):
    return [satyr.GdbThread(FUNS[mc.choose(4)], True) for _ in range(n)]


def matrix():
    """Matrices made of threads, by hand and by copying."""
    n = mc.choose(4)
    ths = some_threads(n) if n <= 3 else []
    how = pick(['plain', 'shared', 'same', 'junk', 'mixed', 'dupframe'])
    if how == 'shared' and n > 1:
        ths[1].frames = list(ths[0].frames)
    elif how == 'same' and n > 1:
        ths[1] = ths[0]
    elif how == 'junk' and n:
        ths[mc.choose(n)] = 5
    elif how == 'mixed' and n > 1:
        ths[1] = satyr.CoreThread()
    elif how == 'dupframe' and n and ths[0].frames:
        ths[0].frames = ths[0].frames[:1] * 2
    elif how != 'plain':
        mc.prune()
    m = mc.choose(5) - 1
    d = pick(DISTS + [-1, 99])
    hist = '%s m=%d dist=%d %r' % (how, m, d, [len(t.frames) if hasattr(t, 'frames') else None for t in ths])
    mc.describe(hist)
    if m < 1 or n < 2 or d not in DISTS or d == satyr.DISTANCE_JARO_WINKLER:
        raises(ValueError, 'Distances ' + hist, satyr.Distances, ths, m, d)
        return
    if how in ('junk', 'mixed'):
        raises(TypeError, 'Distances ' + hist, satyr.Distances, ths, m, d)
        return
    if how == 'dupframe':
        raises(ValueError, 'Distances ' + hist, satyr.Distances, ths, m, d)
        return
    x = satyr.Distances(ths, m, d)
    rows = min(m, n - 1)
    equal('size|' + hist, tuple(x.get_size()), (rows, n))
    c = x.dup()
    del x
    for i in range(-1, n + 1):
        for j in range(-1, n + 1):
            if i < 0 or j < 0 or i >= rows or j >= n:
                raises(ValueError, 'get_distance(%d, %d) %s' % (i, j, hist), c.get_distance, i, j)
            else:
                a, b = ths[i], ths[j]
                equal('distance %d %d|%s' % (i, j, hist), c.get_distance(i, j), 0.0 if i == j else a.distance(b, d))
    # written values are read back, and only they change
    i, j = mc.choose(rows), mc.choose(n)
    before = c.dup()
    c.set_distance(i, j, 0.25)
    for a in range(rows):
        for b in range(n):
            hit = i != j and sorted((a, b)) == sorted((i, j))
            equal('set %d %d|%s' % (i, j, hist), c.get_distance(a, b), 0.25 if hit else before.get_distance(a, b))
    raises(REFUSED, 'set_distance out of range', c.set_distance, rows, 0, 0.5)
    str(c)
    y = satyr.Distances(m, n)
    for a in range(rows):
        for b in range(a + 1, n):
            y.set_distance(a, b, 0.5)
    equal('size of an empty matrix|' + hist, (tuple(y.get_size()), y.get_distance(0, n - 1)), ((rows, n), 0.5))
    mc.outcome(hist)
    mc.nontrivial()


def parts():
    """Matrices computed in parts."""
    n = mc.choose(3) + 2
    m = mc.choose(n + 1)
    nparts = mc.choose(8)
    ths = [satyr.GdbThread(f, True) for f in FUNS[:n]]
    d = satyr.DISTANCE_LEVENSHTEIN
    hist = 'n=%d m=%d %d parts' % (n, m, nparts)
    mc.describe(hist)
    if nparts == 0:
        raises(RuntimeError, 'create ' + hist, satyr.DistancesPart.create, n, nparts, m, d)
        return
    ps = satyr.DistancesPart.create(n, nparts, m, d)
    ref = satyr.Distances(ths, m or n - 1, d)
    if not 1 <= len(ps) <= nparts:
        bad('part count|' + hist, '%d parts' % len(ps))
    raises(RuntimeError, 'merging parts not computed ' + hist, satyr.Distances.merge_parts, ps)
    for k, p in enumerate(ps):
        raises(ValueError, 'compute with fewer threads', p.compute, ths[:-1])
        raises(TypeError, 'compute with junk', p.compute, ths[:-1] + [5])
        p.compute(ths)
        str(p)
    # through pickling
    if mc.choose(2):
        red = [p.__reduce__() for p in ps]
        del ps, p
        ps = [c(*a) for c, a in red]
    op = pick(['all', 'reversed', 'missing', 'twice', 'empty', 'junk', 'foreign', 'again'])
    hist += ' ' + op
    mc.describe(hist)
    if op == 'all' or op == 'reversed' or op == 'again':
        if op == 'reversed':
            ps.reverse()
        if op == 'again':
            satyr.Distances.merge_parts(ps)
        got = satyr.Distances.merge_parts(ps)
        equal('merged size|' + hist, got.get_size(), ref.get_size())
        for a in range(ref.get_size()[0]):
            for b in range(n):
                equal('merged %d %d|%s' % (a, b, hist), got.get_distance(a, b), ref.get_distance(a, b))
    elif op == 'missing':
        ps.pop(mc.choose(len(ps)))
        raises((RuntimeError, ValueError), 'merge ' + hist, satyr.Distances.merge_parts, ps)
    elif op == 'twice':
        raises(ValueError, 'merge ' + hist, satyr.Distances.merge_parts, ps + ps[:1])
    elif op == 'empty':
        raises(ValueError, 'merge ' + hist, satyr.Distances.merge_parts, [])
    elif op == 'junk':
        raises(TypeError, 'merge ' + hist, satyr.Distances.merge_parts, ps + [5])
    elif op == 'foreign':
        other = satyr.DistancesPart.create(n + 1, 1, m, d)
        other[0].compute(ths + [satyr.GdbThread('z z\n', True)])
        raises(RuntimeError, 'merge ' + hist, satyr.Distances.merge_parts, ps + other)
    for p in ps:
        str(p)
    mc.outcome(hist)
    mc.nontrivial()


def part_args():
    """Parts constructed directly (as unpickling does), also from arguments that make no sense."""
    m, n = mc.choose(4) - 1, mc.choose(5) - 1
    mb, nb = mc.choose(5) - 1, mc.choose(5) - 1
    ln = pick([0, 1, 2, 3, 4, 6, 7, 2 ** 40])
    d = pick([satyr.DISTANCE_LEVENSHTEIN, -1, 99])
    k = mc.choose(6)
    dist = [None, [], [0.5], [0.5, 0.25], [0.5] * 7, ['x'] * (ln if ln < 10 else 1)][k]
    hist = repr((m, n, mb, nb, ln, d, dist))
    mc.describe(hist)
    if d != satyr.DISTANCE_LEVENSHTEIN and (k > 1 or ln > 1):
        mc.prune()
    cells = [(i, j) for i in range(max(m, 0)) for j in range(i + 1, max(n, 0))]
    inside = 1 <= m < n and (mb, nb) in cells and d == satyr.DISTANCE_LEVENSHTEIN and ln <= len(cells) - cells.index((mb, nb))
    if not inside or (dist is not None and len(dist) != ln) or (k == 5 and dist):
        raises((ValueError, TypeError), 'part ' + hist, satyr.DistancesPart, m, n, mb, nb, ln, d, 5, dist)
        return
    p = satyr.DistancesPart(m, n, mb, nb, ln, d, 5, dist)
    str(p)
    c, a = p.__reduce__()
    if ln == 0:
        # nothing computed and nothing to compute are the same
        a, dist = a[:7] + (None,), None
    equal('reduced|' + hist, (c, a), (satyr.DistancesPart, (m, n, mb, nb, ln, d, 5, dist)))
    ths = [satyr.GdbThread(f, True) for f in FUNS[:n]]
    if dist is not None:
        if ln == len(cells):
            x = satyr.Distances.merge_parts([p])
            for q, (i, j) in enumerate(cells):
                equal('cell|' + hist, x.get_distance(i, j), dist[q])
        else:
            raises(RuntimeError, 'merge of ' + hist, satyr.Distances.merge_parts, [p])
    p.compute(ths)
    w = cells[cells.index((mb, nb)):][:ln]
    got = p.__reduce__()[1][7]
    equal('computed|' + hist, got or [], [ths[i].distance(ths[j]) for i, j in w])
    mc.outcome(hist)
    mc.nontrivial()


def dendrogram():
    """Clusters of a matrix with chosen distances."""
    n = mc.choose(3) + 2
    d = satyr.Distances(n - 1, n)
    vals = []
    for i in range(n - 1):
        for j in range(i + 1, n):
            v = pick([0.0, 0.5, 1.0] if n < 4 else [0.25, 0.75])
            vals.append(v)
            d.set_distance(i, j, v)
    hist = '%d %r' % (n, vals)
    mc.describe(hist)
    t = satyr.Dendrogram(d)
    del d
    equal('size|' + hist, t.get_size(), n)
    order = [t.get_object(i) for i in range(n)]
    equal('objects|' + hist, sorted(order), list(range(n)))
    levels = [t.get_merge_level(i) for i in range(n - 1)]
    for i in (-1, n, n + 1, 2 ** 31 - 1, -2 ** 31):
        raises(ValueError, 'get_object(%d) of %d' % (i, n), t.get_object, i)
    for i in (-1, n - 1, n, n + 1, 2 ** 31 - 1, -2 ** 31):
        raises(ValueError, 'get_merge_level(%d) of %d' % (i, n), t.get_merge_level, i)
    for lvl in (-1.0, 0.0, 0.25, 0.5, 0.75, 1.0, 2.0):
        for ms in (-1, 0, 1, 2, n, n + 1):
            want, cur = [], [order[0]]
            for i in range(1, n):
                if levels[i - 1] <= lvl:
                    cur.append(order[i])
                else:
                    want.append(cur)
                    cur = [order[i]]
            want.append(cur)
            want = [c for c in want if len(c) >= ms]
            got = t.cut(lvl, ms)
            equal('cut %s %d|%s' % (lvl, ms, hist), sorted(sorted(c) for c in got), sorted(sorted(c) for c in want))
    str(t)
    raises(TypeError, 'Dendrogram(None)', satyr.Dendrogram, None)
    mc.outcome(hist)
    mc.nontrivial()


# ---------------------------------------------------------------- objects made from text
GDB = 'Thread 2 (Thread 0x7f (LWP 2)):\n#0  0x10 in f2 () from /lib/a.so\n\nThread 1 (Thread 0x7e (LWP 1)):\n#0  0x20 in abort () from /lib/a.so\n#1  0x30 in g (x=1) at g.c:5\n'
JAVA = 'Exception in thread "main" java.lang.E: m\n\tat a.B.c(B.java:5)\n\tat a.B.d(B.java:6)\n'
PY = 'Traceback (most recent call last):\n  File "/a.py", line 1, in <module>\n    f()\n  File "/b.py", line 2, in f\n    g()\nE: x\n'
RUBY = "/a.rb:1:in `f': msg (E)\n\tfrom /a.rb:2:in `<main>'\n"
JS = 'E: x\n    at f (/a.js:1:2)\n    at /b.js:3:4\n'
OOPS = 'BUG: unable to handle kernel NULL pointer\nCall Trace:\n [<c040>] f+0x1/0x2\n [<c041>] g+0x1/0x2 [mod]\n'
TEXTS = {
    'GdbStacktrace': GDB, 'GdbThread': 'Thread 1 (Thread 0x7e (LWP 1)):\n#0  0x20 in abort () from /lib/a.so\n#1  0x30 in g (x=1) at g.c:5\n', 'GdbFrame': '#1  0x30 in g (x=1) at g.c:5\n',
    'JavaStacktrace': JAVA, 'JavaThread': JAVA, 'JavaFrame': '\tat a.B.c(B.java:5)\n', 'PythonStacktrace': PY, 'PythonFrame': '  File "/b.py", line 2, in f\n    g()\n',
    'RubyStacktrace': RUBY, 'RubyFrame': "/a.rb:2:in `<main>'", 'JavaScriptStacktrace': JS, 'JavaScriptFrame': 'at f (/a.js:1:2)', 'Kerneloops': OOPS, 'KerneloopsFrame': ' [<c040>] f+0x1/0x2\n',
    'CoreStacktrace': core_json(2, 0),
}
JSONS = {'CoreStacktrace': core_json(2, 0), 'JavaStacktrace': '{"threads": [{"name": "t", "frames": [{"name": "a", "is_native": false, "is_exception": true, "message": "m"}]}]}',
         'PythonStacktrace': '{"exception_name": "E", "stacktrace": [{"file_name": "a", "file_line": 1, "function_name": "f", "line_contents": "x"}]}',
         'RubyStacktrace': '{"exception_name": "E", "stacktrace": [{"file_name": "a", "file_line": 1, "function_name": "f"}]}',
         'JavaScriptStacktrace': '{"exception_name": "E", "platform": {"engine": "V8", "runtime": "Node.js"}, "stacktrace": [{"file_name": "a", "file_line": 1, "line_column": 2, "function_name": "f"}]}',
         'Kerneloops': '{"version": "3", "raw_oops": "o", "taint_flags": ["DIE"], "modules": ["m", "n"], "frames": [{"address": 5, "function_name": "f"}]}', 'Report': None}


def touch(o):
    """Read everything of an object."""
    n = type(o).__name__
    read(o, [a for a in ATTRS.get(n, {})])
    str(o)
    for a in ('frames', 'threads', 'libs', 'packages'):
        for x in getattr(o, a, ()):
            touch(x)
    for m in ('dup', 'short_string', 'quality', 'quality_counts', 'format_funs', 'get_duphash', 'to_short_text', 'get_bthash'):
        f = getattr(o, m, None)
        if f is not None:
            try:
                f()
            except (LookupError, RuntimeError, ValueError):
                pass


def texts():
    """Objects parsed from whole, cut and damaged texts: parsed or refused, and usable when parsed."""
    cls, js = pick([(c, False) for c in sorted(TEXTS)] + [(c, True) for c in sorted(JSONS)])
    src = (JSONS if js else TEXTS)[cls]
    if src is None:
        r = satyr.Report()
        r.report_type = 'python'
        r.stacktrace = make_stacktrace('PythonStacktrace')
        r.packages = [satyr.RpmPackage('a', 0, '1', '2', 'noarch')]
        src = r.to_json()
    cut = mc.choose(len(src) + 1)
    how = pick(['cut', 'hole', 'digit', 'quote', 'nul'] + (['tail'] if THOROUGH else []))
    text = {'cut': src[:cut], 'hole': src[:cut] + src[cut + 1:], 'digit': src[:cut] + '0' + src[cut + 1:], 'quote': src[:cut] + '"' + src[cut:], 'nul': src[:cut] + '\0' + src[cut:], 'tail': src[cut:]}[how]
    C = getattr(satyr, cls)
    make = C.from_json if js and cls != 'Report' else C
    mc.describe('%s %s %r' % (cls, how, text))
    try:
        o = make(text)
    except ValueError:
        if how == 'cut' and cut == len(src):
            bad('refused|%s %r' % (cls, text), 'the whole text is refused')
        mc.outcome(cls + ' refused')
        mc.validated()
        mc.nontrivial()
        return
    if how == 'nul':
        bad('nul|%s %r' % (cls, text), 'a text with an embedded NUL is accepted')
    touch(o)
    mc.step()
    if hasattr(o, 'dup'):
        d = o.dup()
        for a in ('frames', 'threads'):
            if hasattr(o, a):
                equal('parsed and copied|%s %r' % (cls, text), [read(x, ATTRS[type(x).__name__]) for x in getattr(d, a)], [read(x, ATTRS[type(x).__name__]) for x in getattr(o, a)])
    # edit what was parsed
    for a in ('frames', 'threads', 'packages'):
        l = getattr(o, a, None)
        if l:
            x = l.pop(0)
            touch(o)
            l.append(x)
            touch(o)
            del l[:]
            touch(o)
            touch(x)
    mc.outcome('%s %s' % (cls, str(o)))
    mc.nontrivial()


# ---------------------------------------------------------------- calls with wrong arguments
ARGS = [(), (None,), (5,), ('x',), ([],), (-1,), (2 ** 70,), ('x', 'y'), (5, 5), (None, None), ('x', 5), ([5], 5), (b'x',), (1.5,), (1.5, 1), ('x', 1, 'y', 'z', 'w')]


def api():
    """Every class and method called with every small combination of arguments: an exception or a result, never a crash."""
    cls = pick(sorted(set(CLASSES) | {'Distances', 'DistancesPart', 'Dendrogram', 'GdbStacktrace', 'BaseFrame', 'BaseThread', 'SingleThreadStacktrace', 'MultiThreadStacktrace'}))
    C = getattr(satyr, cls)
    names = ['<new>', '<kw>', '<sub>'] + sorted(n for n in dir(C) if not n.startswith('_') and callable(getattr(C, n)))
    name = pick(names)
    args = pick(ARGS)
    mc.describe('%s.%s%r' % (cls, name, args))
    if name == '<sub>':
        if args:
            mc.prune()
        try:
            type('Sub', (C,), {})
        except TypeError:
            pass
        mc.nontrivial()
        return
    try:
        if name == '<new>':
            o = C(*args)
            str(o)
        elif name == '<kw>':
            o = C(*args, unknown=5)
        else:
            if cls in ('BaseFrame', 'BaseThread', 'SingleThreadStacktrace', 'MultiThreadStacktrace'):
                raises(TypeError, '%s.%s() without an object' % (cls, name), getattr(C, name)) if name != 'from_json' else None
                mc.nontrivial()
                return
            if cls == 'Distances':
                o = satyr.Distances(1, 2)
                o.set_distance(0, 1, 0.5)
            elif cls == 'DistancesPart':
                o = satyr.DistancesPart.create(2, 1)[0]
            elif cls == 'Dendrogram':
                d = satyr.Distances(1, 2)
                d.set_distance(0, 1, 0.5)
                o = satyr.Dendrogram(d)
            else:
                o = C()
            r = getattr(o, name)(*args)
            str(r)
        mc.outcome('%s.%s%r returns' % (cls, name, args))
    except SystemError as e:
        bad('SystemError|%s.%s%r' % (cls, name, args), 'SystemError: %s' % e)
    except Exception as e:
        mc.outcome('%s.%s%r raises %s' % (cls, name, args, type(e).__name__))
    mc.step()
    mc.validated()
    mc.nontrivial()


COUNTS = [7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]
LENGTHS = [15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536]


def sizes():
    """Lists and texts of sizes near limits."""
    dim = pick(['frames', 'threads', 'strings', 'packages', 'auth', 'distances', 'parts', 'clusters', 'text'])
    n = pick((LENGTHS if THOROUGH else LENGTHS[:24]) if dim == 'strings' else COUNTS + [512, 1025] * THOROUGH if dim not in ('distances', 'parts', 'clusters') else COUNTS[:15] if THOROUGH else COUNTS[:11])
    hist = '%s %d' % (dim, n)
    if dim == 'frames':
        cls = pick(THREADS)
        t = getattr(satyr, cls)()
        pool = [new_frame(FRAME[cls], 'f%d' % i) for i in range(n)]
        how = pick(['assign', 'append', 'insert', 'reverse', 'cut', 'half', 'same'])
        hist += ' %s %s' % (cls, how)
        mc.describe(hist)
        want = ['f%d' % i for i in range(n)]
        if how == 'append':
            for f in pool:
                t.frames.append(f)
        elif how == 'insert':
            for f in pool:
                t.frames.insert(0, f)
            want.reverse()
        else:
            t.frames = pool
        equal('labels|' + hist, labels(t.frames), want)
        equal('native|' + hist, native_labels(t), want)
        if how == 'reverse':
            t.frames.reverse()
            want.reverse()
        elif how == 'cut':
            del t.frames[-1]
            want.pop()
        elif how == 'half':
            t.frames = t.frames[n // 2:]
            want = want[n // 2:]
        elif how == 'same':
            t.frames[n // 2].__setattr__(LABEL[FRAME[cls]], 'changed')
            want[n // 2] = 'changed'
        equal('native after %s|%s' % (how, hist), native_labels(t), want)
        equal('equals|' + hist, t.equals(t.dup()), True)
        del t
    elif dim == 'threads':
        cls = pick(['CoreStacktrace', 'GdbStacktrace', 'JavaStacktrace'])
        hist += ' ' + cls
        mc.describe(hist)
        s = satyr.GdbStacktrace(GDB) if cls == 'GdbStacktrace' else getattr(satyr, cls)()
        tc = multi(cls)
        pool = []
        for i in range(n):
            t = getattr(satyr, tc)()
            t.frames = [new_frame(FRAME[tc], 't%d' % i)]
            pool.append(t)
        s.threads = list(pool)
        equal('threads|' + hist, [labels(t.frames) for t in s.dup().threads], [['t%d' % i] for i in range(n)])
        k = pick([0, n // 2, n - 1])
        if cls == 'CoreStacktrace':
            c = satyr.CoreStacktrace(core_json(n, k))
            equal('crash|%s %d' % (hist, k), c.crash_thread is c.threads[k], True)
            d = c.dup()
            equal('crash of copy|%s %d' % (hist, k), d.crash_thread is d.threads[k], True)
            r = satyr.Report()
            r.report_type = 'core'
            r.stacktrace = d
            equal('crash in json|%s %d' % (hist, k), [t.get('crash_thread', False) for t in json.loads(r.to_json())['problem']['stacktrace']], [i == k for i in range(n)])
        del s.threads[k]
        equal('threads without %d|%s' % (k, hist), [labels(t.frames) for t in s.dup().threads], [['t%d' % i] for i in range(n) if i != k])
        del s
        equal('thread alone|' + hist, labels(pool[k].frames), ['t%d' % k])
    elif dim == 'strings':
        cls = pick([c for c in CLASSES if S in ATTRS[c].values()])
        a = pick(sorted(x for x in ATTRS[cls] if ATTRS[cls][x] == S))
        kind = pick(['a', 'é', '\U0001f600'])
        hist += ' %s.%s %s' % (cls, a, kind)
        mc.describe(ascii(hist))
        o = getattr(satyr, cls)()
        attrs = sorted(ATTRS[cls])
        model = read(o, attrs)
        for v in ('x' * (n // 2) + kind * (n - n // 2), 'short', kind * n):
            setattr(o, a, v)
            model[a] = v
            equal('attributes|' + hist, read(o, attrs), model)
        str(o)
        if hasattr(o, 'dup'):
            equal('dup|' + hist, read(o.dup(), attrs), model)
        if 'Frame' in cls:
            o.short_string()
    elif dim == 'packages':
        r = satyr.Report()
        r.report_type = 'python'
        r.packages = [satyr.RpmPackage('p%d' % i, i, '1', '2', 'noarch') for i in range(n)]
        mc.describe(hist)
        equal('packages|' + hist, [p['name'] for p in json.loads(r.to_json())['packages']], ['p%d' % i for i in range(n)])
        r2 = satyr.Report(r.to_json())
        equal('packages read|' + hist, [(p.name, p.epoch) for p in r2.packages], [('p%d' % i, i) for i in range(n)])
        r2.packages = r2.packages[::-2]
        equal('half|' + hist, [p['name'] for p in json.loads(r2.to_json())['packages']], ['p%d' % i for i in range(n)][::-2])
    elif dim == 'auth':
        r = satyr.Report()
        r.report_type = 'python'
        mc.describe(hist)
        want = {'k%d' % i: 'v%d' % (i % 5) for i in range(n)}
        j = json.loads(r.to_json())
        j['auth'] = want
        r = satyr.Report(json.dumps(j))
        equal('auth|' + hist, json.loads(r.to_json())['auth'], want)
        equal('auth attribute|' + hist, dict(r.auth), want)
    elif dim in ('distances', 'parts', 'clusters'):
        m = pick([1, n // 2, n - 1])
        d = pick(DISTS[:3])
        hist += ' m=%d dist=%d' % (m, d)
        mc.describe(hist)
        ths = [satyr.GdbThread(''.join('%s lib\n' % 'fgh'[(i * j + i // 3) % 3] for j in range(i % 7 + 1)), True) for i in range(n)]
        x = satyr.Distances(ths, m, d)
        rows = min(m, n - 1)
        equal('size|' + hist, tuple(x.get_size()), (rows, n))
        if dim == 'distances':
            for i in range(rows):
                for j in range(i + 1, n):
                    equal('distance %d %d|%s' % (i, j, hist), x.get_distance(i, j), ths[i].distance(ths[j], d))
        elif dim == 'parts':
            ps = satyr.DistancesPart.create(n, pick([1, 2, 7, 64, 1000]), m, d)
            for p in ps:
                p.compute(ths)
            ps = [c(*a) for c, a in [p.__reduce__() for p in ps]]
            y = satyr.Distances.merge_parts(ps[::-1])
            equal('merged|' + hist, [y.get_distance(i, j) for i in range(rows) for j in range(n)], [x.get_distance(i, j) for i in range(rows) for j in range(n)])
        else:
            t = satyr.Dendrogram(x)
            order = [t.get_object(i) for i in range(n)]
            equal('objects|' + hist, sorted(order), list(range(n)))
            lvl = pick([0.0, 0.3, 0.5, 1.0])
            want, cur = [], [order[0]]
            for i in range(1, n):
                if t.get_merge_level(i - 1) <= lvl:
                    cur.append(order[i])
                else:
                    want.append(cur)
                    cur = [order[i]]
            want.append(cur)
            equal('cut %s|%s' % (lvl, hist), sorted(sorted(c) for c in t.cut(lvl, 2)), sorted(sorted(c) for c in want if len(c) >= 2))
    else:
        cls = pick(['PythonStacktrace', 'RubyStacktrace', 'JavaScriptStacktrace', 'Kerneloops', 'GdbThread', 'JavaThread'])
        hist += ' ' + cls
        mc.describe(hist)
        r = range(n)
        text = {'PythonStacktrace': 'Traceback (most recent call last):\n' + ''.join('  File "/a.py", line 1, in f%d\n    x\n' % i for i in r) + 'E: x\n', 'RubyStacktrace': "/a.rb:1:in `f0': m (E)\n" + ''.join("\tfrom /a.rb:2:in `f%d'\n" % i for i in r[1:]),
                'JavaScriptStacktrace': 'E: x\n' + ''.join('    at f%d (/a.js:1:2)\n' % i for i in r), 'Kerneloops': 'Call Trace:\n' + ''.join(' [<c040>] f%d+0x1/0x2\n' % i for i in r), 'GdbThread': 'Thread 1 (Thread 0x7e (LWP 1)):\n' + ''.join('#%d  0x20 in f%d ()\n' % (i, i) for i in r),
                'JavaThread': 'Exception in thread "main" E: m\n' + ''.join('\tat f%d(B.java:5)\n' % i for i in r)}[cls]
        t = getattr(satyr, cls)(text)
        want = ['f%d' % i for i in r]
        got = labels(t.frames)
        if cls == 'PythonStacktrace':
            want.reverse()
        if cls == 'JavaThread':
            got = got[1:]
        equal('text|' + hist, got, want)
        equal('native text|' + hist, native_labels(t)[-n:], want)
    mc.outcome(ascii(hist))
    mc.nontrivial()


# ---------------------------------------------------------------- nothing is left behind
class Recorder:
    """Stands in for mc while a history is taken: keeps the decisions, at most limit of them other than the first option."""
    def __init__(self, real, limit):
        self.real, self.taken, self.limit = real, [], limit

    def __getattr__(self, name):
        return getattr(self.real, name)

    def choose(self, n):
        c = self.real.choose(n) if self.limit else 0
        self.limit -= c != 0
        self.taken.append(c)
        return c


class Repeater:
    """Stands in for mc while the history is taken again."""
    Stop = mc.Stop

    def __init__(self, taken):
        self.taken, self.at = taken, 0

    def choose(self, n):
        self.at += 1
        return self.taken[self.at - 1]

    def ignore(self, *args):
        pass

    describe = outcome = state = step = validated = nontrivial = fail = ignore


def released():
    """A history taken again and again does not need more and more memory."""
    global mc
    real = mc
    name = pick(['attributes', 'frames', 'threads', 'gdb', 'core', 'report', 'packages', 'matrix', 'parts', 'part_args', 'dendrogram', 'texts', 'api'])
    f = globals()[name]
    rec = Recorder(real, 4 if THOROUGH else 3)
    mc = rec
    try:
        f()
    finally:
        mc = real

    def again(times):
        global mc
        try:
            for _ in range(times):
                mc = Repeater(rec.taken)
                f()
        finally:
            mc = real
        gc.collect()
        return real.live()
    real.heap()
    again(2)
    a = again(2)
    b = again(4)
    if b - a >= 4:
        # not the caches of the interpreter
        c = again(12)
        if c - b >= 12:
            bad('left behind|%s %r' % (name, rec.taken), '%d more blocks of memory after taking the history 12 times again' % (c - b))
    real.heap()
    real.validated()
    real.nontrivial()

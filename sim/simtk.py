""" A simulated window system: stand-ins for the tkinter modules, driven by a script of events.

`install()` puts simulated `tkinter`, `tkinter.ttk`, `tkinter.font`, `tkinter.filedialog`, `tkinter.messagebox`,
`tkinter.simpledialog`, `tkinter.constants` into sys.modules. A `Display` is the screen of one simulated session: it
holds the windows, their canvases (with the semantics of Tk's canvas: item ids, tags, stacking order, states,
coordinates, bounding boxes), the dialogs shown, and the faults which are to strike. The event loop (`mainloop`,
`wait_visibility`) hands control to the display, which performs the next event of its script.

Only what an application can observe is simulated. Anything not simulated raises SimUnsupported, which is a failure of
the simulator (exit 2), never a verdict. """
import builtins, sys, types

class SimUnsupported(Exception):
    """ The application used a feature of Tk which is not simulated. """

class TclError(Exception): pass

TclVersion = TkVersion = 8.6

class Display:
    """ One simulated session. """
    current = None
    def __init__(self, script=(), faults=None, size=(700, 500)):
        self.script = script          # called by the event loop: script(display) -> None at the end of the session
        self.faults = dict(faults or {})
        self.size = tuple(size)       # what the window manager makes of the first request is up to geometry()
        self.roots = []
        self.dialogs = []             # [(kind, title, message)]
        self.answers = []             # what the next file dialogs return
        self.asked = 0
        self.struck = []              # faults which struck
        self.errors = []              # exceptions that escaped from callbacks
        self.written = []             # pictures: (path, [items])
        self.calls = 0
        self.vars = 0
        Display.current = self
    def fault(self, name):
        """ Should the next operation of this kind fail? """
        queue = self.faults.get(name)
        if not queue: return None
        f = queue.pop(0)
        if f is not None: self.struck.append(name + ':' + str(f))
        return f
    def callback(self, function, *args):
        """ What Tk does with a callback: nothing escapes. """
        try: return function(*args)
        except SimUnsupported: raise
        except SystemExit: raise
        except BaseException as error:  # pylint: disable=broad-except
            import traceback
            frames = [f for f in traceback.extract_tb(error.__traceback__)]
            where = f'{frames[-1].name}' if frames else '?'
            self.errors.append((type(error).__name__, str(error)[:200], where))
    def close(self):
        for r in list(self.roots):
            if not r.destroyed: r._destroy()

def display():
    if Display.current is None: Display()
    return Display.current

# ---------------------------------------------------------------- variables
class Variable:
    _default = ''
    def __init__(self, master=None, value=None, name=None):
        if master is None and not any(not r.destroyed for r in display().roots): raise RuntimeError('Too early to create variable: no default root window')
        display().vars += 1
        self._name = name or f'PY_VAR{display().vars}'
        self._value = self._default if value is None else value
        self._traces = []
    def __str__(self): return self._name
    def set(self, value):
        self._value = value
        for name, modes, cb in list(self._traces):
            if 'write' in modes: display().callback(cb, self._name, '', 'write' if name is None else 'w')
    initialize = set
    def get(self): return self._value
    def trace_variable(self, mode, callback):
        self._traces.append(('old', {'w': ('write',), 'r': ('read',), 'u': ('unset',)}[mode], callback))
        return f'cb{len(self._traces)}'
    trace = trace_variable
    def trace_add(self, mode, callback):
        modes = (mode,) if isinstance(mode, str) else tuple(mode)
        self._traces.append((None, modes, callback))
        return f'cb{len(self._traces)}'
    def trace_remove(self, mode, cbname):
        i = int(cbname[2:]) - 1
        self._traces[i] = (None, (), None)
    def trace_info(self): return [(m, 'cb') for _, m, _ in self._traces]

class StringVar(Variable):
    def get(self): return str(self._value)
class IntVar(Variable):
    _default = 0
    def get(self): return int(self._value)
class DoubleVar(Variable):
    _default = 0.0
    def get(self): return float(self._value)
class BooleanVar(Variable):
    _default = False
    def get(self): return bool(int(self._value)) if not isinstance(self._value, str) else self._value.lower() in ('1', 'true', 'yes', 'on')
    def set(self, value): super().set(bool(value))

# ---------------------------------------------------------------- widgets
class Event:
    def __init__(self, widget, **kw):
        self.widget = widget
        self.keysym = self.char = ''
        self.x = self.y = self.x_root = self.y_root = self.delta = self.num = self.width = self.height = 0
        self.__dict__.update(kw)

class _Tk:
    """ The interpreter. """
    def __init__(self, root): self.root = root
    def call(self, *args):
        self.root._alive()
        if args[:2] == ('wm', 'iconphoto'):
            f = display().fault('iconphoto')
            if f: raise TclError('can\'t use "pyimage1" as iconphoto: not a photo image')
            self.root.icon = args[-1]
            return ''
        if args and args[0] == 'wm': return ''
        raise SimUnsupported('tk.call' + repr(args))
    def eval(self, script): return self.root.eval(script)

class Misc:
    master = None
    _w = '.'
    def __init__(self, master=None, cnf=None, **kw):
        if master is None:
            live = [r for r in display().roots if not r.destroyed]
            if not live: raise RuntimeError('Too early to create a widget: no default root window')
            master = live[0]
        self.master = master
        master._alive()
        self.root = master.root
        self.tk = self.root.tk
        self.children_ = []
        master.children_.append(self)
        self.destroyed = False
        self.bindings = {}
        self.opts = dict(cnf or {}, **kw)
        self._w = (master._w if master._w != '.' else '') + f'.w{len(master.children_)}'
    def _alive(self):
        if self.destroyed: raise TclError(f'invalid command name "{self._w}"')
    def _destroy(self):
        for c in self.children_: c._destroy()
        self.destroyed = True
    def destroy(self):
        if self.destroyed and self is self.root: raise TclError('can\'t invoke "destroy" command: application has been destroyed')
        self._destroy()
    def winfo_exists(self): return int(not self.destroyed)
    def winfo_toplevel(self): return self.root
    def winfo_children(self): return list(self.children_)
    def configure(self, cnf=None, **kw):
        self._alive()
        self.opts.update(cnf or {}, **kw)
    config = configure
    def cget(self, key): return self.opts.get(key, '')
    __getitem__ = cget
    def __setitem__(self, key, value): self.configure({key: value})
    def keys(self): return list(self.opts)
    def bind(self, sequence=None, func=None, add=None):
        self._alive()
        if func is None: return ''
        if add: self.bindings.setdefault(sequence, []).append(func)
        else: self.bindings[sequence] = [func]
        return f'bind{sequence}'
    def unbind(self, sequence, funcid=None): self.bindings.pop(sequence, None)
    def bind_all(self, sequence=None, func=None, add=None): return self.root.bind(sequence, func, add)
    def focus_set(self): pass
    focus = focus_force = focus_set
    def focus_get(self): return self.root
    def update(self): self._alive()
    update_idletasks = update
    def after(self, ms, func=None, *args):
        self._alive()
        if func is not None:
            self.root.timers.append((func, args))
            return f'after#{len(self.root.timers)}'
    def after_idle(self, func, *args): return self.after(0, func, *args)
    def after_cancel(self, ident):
        i = int(ident.split('#')[1]) - 1
        if i < len(self.root.timers): self.root.timers[i] = None
    def pack(self, cnf=None, **kw): self._alive()
    pack_configure = grid = place = grid_configure = place_configure = pack
    def pack_forget(self): pass
    grid_forget = place_forget = pack_forget
    def columnconfigure(self, *a, **k): pass
    rowconfigure = grid_columnconfigure = grid_rowconfigure = columnconfigure
    def winfo_width(self): return self.root.size_of(self)[0]
    def winfo_height(self): return self.root.size_of(self)[1]
    def winfo_reqwidth(self): return self.winfo_width()
    def winfo_reqheight(self): return self.winfo_height()
    def winfo_viewable(self): return int(self.root.visible)
    winfo_ismapped = winfo_viewable
    def winfo_rgb(self, colour): return (0, 0, 0)
    def winfo_name(self): return self._w.split('.')[-1]
    def nametowidget(self, name): raise SimUnsupported('nametowidget')
    def wait_visibility(self, window=None):
        self.root._wait_visibility()
    def wait_window(self, window=None): raise SimUnsupported('wait_window')
    def quit(self):
        self.root.quitting = True
    def mainloop(self, n=0): self.root._mainloop()
    def eval(self, script):
        self.root._alive()
        return ''
    def event_generate(self, sequence, **kw): self.root.dispatch(sequence, **kw)
    def lift(self, *a): pass
    tkraise = lift
    def bell(self, *a): pass
    def clipboard_clear(self): pass
    def clipboard_append(self, *a): pass
    def option_add(self, *a): pass
    def grab_set(self): pass
    def grab_release(self): pass
    def nothing(self, *a): pass

class Tk(Misc):
    def __init__(self, screenName=None, baseName=None, className='Tk', useTk=True, sync=False, use=None):
        if display().fault('Tk'): raise TclError('no display name and no $DISPLAY environment variable')
        self.root = self
        self.tk = _Tk(self)
        self.children_ = []
        self.destroyed = False
        self.bindings = {}
        self.opts = {}
        self._w = '.'
        self.timers = []
        self.visible = False
        self.quitting = False
        self.minimum = (1, 1)
        self.size = None
        self.icon = None
        self.protocols = {}
        self.title_ = ''
        self.loops = 0
        display().roots.append(self)
    def title(self, string=None):
        self._alive()
        if string is not None: self.title_ = string
        return self.title_
    wm_title = title
    def minsize(self, width=None, height=None):
        if width is None: return self.minimum
        self.minimum = (width, height)
    wm_minsize = minsize
    def maxsize(self, *a): pass
    def resizable(self, *a): pass
    def geometry(self, spec=None):
        if spec is None: return '%dx%d+0+0' % (self.size or (1, 1))
        w, h = spec.split('+')[0].split('x')
        self.size = (max(int(w), self.minimum[0]), max(int(h), self.minimum[1]))
    wm_geometry = geometry
    def iconphoto(self, default, *images): self.tk.call('wm', 'iconphoto', self._w, *images)
    wm_iconphoto = iconphoto
    def iconbitmap(self, *a, **k):
        if display().fault('iconphoto'): raise TclError('bitmap not defined')
    def protocol(self, name=None, func=None):
        self._alive()
        self.protocols[name] = func
    wm_protocol = protocol
    def withdraw(self): pass
    def deiconify(self): pass
    def attributes(self, *a): pass
    wm_attributes = attributes
    def size_of(self, widget):
        if not self.visible: return (1, 1)
        w, h = self.size or (200, 200)
        if widget is self: return (w, h)
        if isinstance(widget, Notebook): return (w - 4, h - 4 - 21)
        if isinstance(widget, Canvas) and isinstance(widget.master, Notebook): return (w - 8, h - 4 - 21 - 27)
        return (w, h)
    def _mainloop(self):
        self._alive()
        self.visible = True
        self.loops += 1
        while not self.quitting and not self.destroyed:
            if display().script(display()) is None: break
            self.run_timers()
        self.quitting = False
    def run_timers(self):
        for _ in range(50):
            if not self.timers or self.destroyed: break
            now, self.timers = self.timers, []
            for t in now:
                if t is not None: display().callback(t[0], *t[1])
    def _wait_visibility(self):
        self._alive()
        f = display().fault('wait_visibility')
        if isinstance(f, (list, tuple)): self.size = (max(f[0], self.minimum[0]), max(f[1], self.minimum[1]))  # resized before it became visible
        if f == 'closed':
            self._destroy()
            raise TclError('window ".!notebook" was deleted before its visibility changed')
        self.visible = True
    def dispatch(self, sequence, **kw):
        """ Deliver a key press: the most specific binding of the window wins, as in Tk. """
        if self.destroyed: return
        keysym, mods = kw.get('keysym', ''), kw.get('mods', ())
        best = None
        for seq, funcs in self.bindings.items():
            score = match(seq, keysym, mods)
            if score is not None and (best is None or score > best[0]): best = (score, funcs)
        if best is not None:
            e = Event(self, keysym=keysym, char=kw.get('char', ''))
            for f in list(best[1]): display().callback(f, e)
    def deliver(self, sequence, widget=None, **kw):
        """ Deliver another event (Configure, Expose, Motion, ...) to whoever bound it. """
        if self.destroyed: return
        for w in [widget, self] if widget is not None and widget is not self else [self]:
            for f in list(w.bindings.get(sequence, ())): display().callback(f, Event(w, **kw))

Toplevel = None

KEYS = {'plus': 'plus', 'minus': 'minus'}
def match(seq, keysym, mods):
    """ How specifically does the pattern match the key press? """
    if not (seq.startswith('<') and seq.endswith('>')):
        return 2 if seq == {'plus': '+', 'equal': '=', 'minus': '-', 'underscore': '_'}.get(keysym, keysym) and not mods else None
    parts = seq.strip('<>').split('-') if not seq.endswith('-->') else [seq.strip('<>')]
    need = [p for p in parts if p in ('Control', 'Command', 'Shift', 'Alt', 'Meta')]
    rest = [p for p in parts if p not in need]
    if any(r in ('KeyRelease', 'Button', 'ButtonPress', 'ButtonRelease', 'Motion', 'Configure', 'Expose', 'Map', 'Unmap', 'Destroy', 'Enter', 'Leave', 'FocusIn', 'FocusOut', 'MouseWheel', 'Visibility') or r.startswith('<') for r in rest): return None
    detail = [r for r in rest if r not in ('Key', 'KeyPress', 'Any')]
    if detail and detail != [keysym]: return None
    if not all(n in mods for n in need): return None
    return 1 + (2 if detail else 0) + len(need)

class Frame(Misc): pass
class Label(Misc): pass
class Button(Misc): pass

class Menu(Misc):
    def __init__(self, master=None, cnf=None, **kw):
        super().__init__(master, cnf, **kw)
        self.entries = []
    def add(self, kind, cnf=None, **kw):
        self._alive()
        self.entries.append((kind, dict(cnf or {}, **kw)))
    def add_command(self, cnf=None, **kw): self.add('command', cnf, **kw)
    def add_cascade(self, cnf=None, **kw): self.add('cascade', cnf, **kw)
    def add_radiobutton(self, cnf=None, **kw): self.add('radiobutton', cnf, **kw)
    def add_checkbutton(self, cnf=None, **kw): self.add('checkbutton', cnf, **kw)
    def add_separator(self, cnf=None, **kw): self.add('separator', cnf, **kw)
    def entryconfig(self, index, cnf=None, **kw):
        for kind, e in self.entries:
            if e.get('label') == index: e.update(cnf or {}, **kw); return
        self.entries[int(index)][1].update(cnf or {}, **kw)
    entryconfigure = entryconfig
    def entrycget(self, index, option):
        for kind, e in self.entries:
            if e.get('label') == index: return e.get(option, '')
        return self.entries[int(index)][1].get(option, '')
    def index(self, i):
        if i in ('end', 'last'): return len(self.entries) - 1 if self.entries else None
        for j, (kind, e) in enumerate(self.entries):
            if e.get('label') == i: return j
        return int(i)
    def delete(self, a, b=None):
        a = self.index(a); b = a if b is None else self.index(b)
        del self.entries[a:(b or 0) + 1]
    def find(self, path):
        """ The entry with the given labels, from this menu down. """
        for kind, e in self.entries:
            if e.get('label') == path[0]:
                if len(path) == 1: return kind, e
                if kind == 'cascade': return e['menu'].find(path[1:])
        return None
    def paths(self, prefix=()):
        for kind, e in self.entries:
            if kind == 'cascade': yield from e['menu'].paths(prefix + (e['label'],))
            elif kind != 'separator': yield kind, prefix + (e['label'],), e
    def invoke_path(self, path):
        """ What happens when the user chooses the entry. """
        found = self.find(path)
        if found is None: return False
        kind, e = found
        if e.get('state') == 'disabled': return False
        var = e.get('variable', e.get('var'))
        def act():
            if kind == 'radiobutton' and var is not None: var.set(e.get('value', e.get('label')))
            elif kind == 'checkbutton' and var is not None:
                on, off = e.get('onvalue', 1), e.get('offvalue', 0)
                var.set(off if var.get() == on else on)
            if e.get('command') is not None: e['command']()
        display().callback(act)
        return True

class PhotoImage:
    def __init__(self, name=None, cnf=None, master=None, **kw):
        kw = dict(cnf or {}, **kw)
        if master is None and not any(not r.destroyed for r in display().roots): raise RuntimeError('Too early to create image: no default root window')
        path = kw.get('file')
        if path:
            f = display().fault('PhotoImage')
            if f == 'missing': raise TclError(f'couldn\'t open "{path}": no such file or directory')
            if f == 'denied': raise TclError(f'couldn\'t open "{path}": permission denied')
            if f == 'corrupt': raise TclError('couldn\'t recognize data in image file "%s"' % path)
            if f == 'memory': raise TclError('not enough free memory for image buffer')
            try:
                with REAL_OPEN(path, 'rb') as h: h.read(4)
            except OSError: raise TclError(f'couldn\'t open "{path}": no such file or directory') from None
        self.name = name or 'pyimage1'
        self.path = path
    def __str__(self): return self.name
    def width(self): return 32
    def height(self): return 32

REAL_OPEN = builtins.open
SCRATCH = [None]

class _FailingFile:
    """ A file on a disk that is full or broken: part of what is written arrives. """
    def __init__(self, handle, code, path): self.handle, self.code, self.path = handle, code, path
    def write(self, text):
        self.handle.write(text[:len(text) // 3]); self.handle.flush()
        import os
        raise OSError(self.code, os.strerror(self.code), self.path)
    def writelines(self, lines): self.write(''.join(lines))
    def __getattr__(self, name): return getattr(self.handle, name)
    def __enter__(self): return self
    def __exit__(self, *args): self.handle.close()

def sim_open(file, mode='r', *args, **kwargs):
    """ Opening files: those in the scratch folder are on the simulated disk. """
    import os, errno
    if SCRATCH[0] and isinstance(file, (str, os.PathLike)) and str(file).startswith(SCRATCH[0]) and any(c in mode for c in 'wax+'):
        f = display().fault('postscript')
        codes = {'denied': errno.EACCES, 'missing': errno.ENOENT, 'isdir': errno.EISDIR, 'readonly': errno.EROFS, 'toolong': errno.ENAMETOOLONG, 'nofds': errno.EMFILE, 'full': errno.ENOSPC, 'io': errno.EIO, 'oserror': errno.EIO}
        if f in ('full', 'io', 'oserror'): return _FailingFile(REAL_OPEN(file, mode, *args, **kwargs), codes[f], str(file))
        if f in codes: raise OSError(codes[f], os.strerror(codes[f]), str(file))
    return REAL_OPEN(file, mode, *args, **kwargs)

# ---------------------------------------------------------------- fonts
class Font:
    def __init__(self, root=None, font=None, name=None, exists=False, **options):
        if root is None and not any(not r.destroyed for r in display().roots): raise RuntimeError('Too early to use font: no default root window')
        self.options = dict(family='TkDefaultFont', size=10, weight='normal', slant='roman', underline=0, overstrike=0)
        self.options.update(options)
    def configure(self, **options): self.options.update(options)
    config = configure
    def cget(self, key): return self.options[key]
    def __getitem__(self, key): return self.options[key]
    def __setitem__(self, key, value): self.options[key] = value
    def actual(self, option=None, displayof=None): return self.options if option is None else self.options[option]
    def copy(self): return Font(**self.options)
    def measure(self, text): return int(len(str(text)) * self.options['size'] * 0.8)
    def metrics(self, *options): return int(self.options['size'] * 1.6)

def font_size(font):
    if isinstance(font, Font): return font.options['size']
    if isinstance(font, (tuple, list)) and len(font) > 1: return int(font[1])
    return 10

# ---------------------------------------------------------------- canvas
def flatten(args):
    out = []
    for a in args:
        if isinstance(a, (list, tuple)): out.extend(flatten(a))
        elif isinstance(a, str) and ' ' in a: out.extend(float(x) for x in a.split())
        elif hasattr(a, '__iter__') and not isinstance(a, str): out.extend(flatten(list(a)))
        else: out.append(float(a))
    return out

DEFAULTS = {
    'line': dict(width=1.0, fill='black', arrow='none', arrowshape=(8, 10, 3), smooth='0', splinesteps=12, state='', capstyle='butt', joinstyle='round', dash=''),
    'polygon': dict(width=1.0, fill='black', outline='', smooth='0', splinesteps=12, state='', joinstyle='round', dash=''),
    'oval': dict(width=1.0, fill='', outline='black', state='', dash=''),
    'rectangle': dict(width=1.0, fill='', outline='black', state='', dash=''),
    'arc': dict(width=1.0, fill='', outline='black', state='', start=0.0, extent=90.0, style='pieslice', dash=''),
    'text': dict(text='', font=None, fill='black', anchor='center', justify='left', state='', width=0, angle=0),
    'image': dict(image=None, anchor='center', state=''),
    'bitmap': dict(bitmap=None, anchor='center', state=''),
    'window': dict(window=None, anchor='center', state='', width=0, height=0)}
ALIASES = {'tag': 'tags'}
EXTRA = {'activefill', 'activeoutline', 'activewidth', 'disabledfill', 'disabledoutline', 'disabledwidth', 'dashoffset', 'offset', 'stipple', 'activedash', 'disableddash', 'outlinestipple', 'outlineoffset'}

class Item:
    def __init__(self, ident, kind):
        self.id, self.kind = ident, kind
        self.coords = []
        self.tags = []
        self.opts = dict(DEFAULTS[kind])
    def hidden(self): return self.opts['state'] == 'hidden'
    def bbox(self):
        if self.hidden() or not self.coords: return None
        xs, ys = self.coords[::2], self.coords[1::2]
        if self.kind == 'text':
            lines = str(self.opts['text']).split('\n')
            size = font_size(self.opts['font'])
            w, h = max(len(l) for l in lines) * size * 0.8, len(lines) * size * 1.6
            if w <= 0: return None
            a = self.opts['anchor']
            x, y = xs[0], ys[0]
            x0 = x if 'w' in a and a != 'center' else x - w if a in ('e', 'ne', 'se') else x - w / 2
            y0 = y if a in ('n', 'nw', 'ne') else y - h if a in ('s', 'sw', 'se') else y - h / 2
            return x0, y0, x0 + w, y0 + h
        pad = self.opts.get('width', 1.0) / 2 if self.opts.get('outline', self.opts.get('fill')) or self.kind == 'line' else 0
        if self.kind == 'line' and self.opts['arrow'] not in ('', 'none'): pad = max(pad, self.opts['arrowshape'][2] + self.opts['width'])
        return min(xs) - pad, min(ys) - pad, max(xs) + pad, max(ys) + pad
    def look(self):
        """ Everything that determines the picture of this item. """
        o = dict(self.opts)
        if o.get('arrow') in ('', 'none'): o['arrow'] = 'none'; o.pop('arrowshape', None)
        if 'font' in o: o['font'] = font_size(o['font'])
        if o.get('state') == '': o['state'] = 'normal'
        if 'text' in o: o['text'] = str(o['text'])
        return o

BOOL = {'0': '0', 'false': '0', 'no': '0', 'off': '0', '': '0', 'none': '0', '1': '1', 'true': '1', 'yes': '1', 'on': '1', 'bezier': '1'}

def colour(v):
    v = str(v)
    if v.startswith('#'):
        if len(v) not in (4, 7, 10, 13) or any(c not in '0123456789abcdefABCDEF' for c in v[1:]): raise TclError(f'invalid color name "{v}"')
    elif not v[0].isalpha() or not all(c.isalnum() or c == ' ' for c in v): raise TclError(f'unknown color name "{v}"')

class Canvas(Misc):
    def __init__(self, master=None, cnf=None, **kw):
        super().__init__(master, cnf, **kw)
        self.items = []
        self.by_id = {}
        self.next_id = 1
    # -- selection
    def _find(self, tag):
        self._alive()
        if isinstance(tag, (list, tuple)):
            out = []
            for t in tag: out.extend(self._find(t))
            return out
        if isinstance(tag, int) or (isinstance(tag, str) and tag.isdigit()):
            i = self.by_id.get(int(tag))
            return [] if i is None else [i]
        if tag is None: raise TclError('wrong # args: should be tagOrId')
        if tag == 'all': return list(self.items)
        if '&&' in tag or '||' in tag:
            if '||' in tag: return [i for i in self.items if any(i in self._find(t.strip()) for t in tag.split('||'))]
            return [i for i in self.items if all(i in self._find(t.strip()) for t in tag.split('&&'))]
        if tag.startswith('!'): return [i for i in self.items if tag[1:] not in i.tags]
        return [i for i in self.items if tag in i.tags]
    def _set(self, item, options):
        for k, v in options.items():
            k = ALIASES.get(k.rstrip('_'), k.rstrip('_'))
            if k == 'tags':
                item.tags = [v] if isinstance(v, str) and ' ' not in v else v.split() if isinstance(v, str) else [str(t) for t in v]
                continue
            if k in EXTRA: continue
            if k not in item.opts: raise TclError(f'unknown option "-{k}"')
            if k == 'width' and item.kind != 'text':
                v = float(v)
                if v < 0: raise TclError(f'bad screen distance "{v}"')
            if k in ('fill', 'outline') and v: colour(v)
            if k == 'arrow':
                if v in (None, ''): v = 'none'
                if v not in ('none', 'first', 'last', 'both'): raise TclError(f'bad arrow spec "{v}": must be none, first, last, or both')
            if k == 'state':
                if v not in ('', 'normal', 'hidden', 'disabled'): raise TclError(f'bad state value "{v}": must be active, disabled, hidden, or normal')
            if k == 'smooth':
                s = str(v).lower()
                if s not in BOOL: raise TclError(f'unrecognized smooth "{v}"')
                v = BOOL[s]
            if k == 'arrowshape':
                v = tuple(float(x) for x in (v.split() if isinstance(v, str) else v))
                if len(v) != 3: raise TclError('bad arrow shape')
            if k in ('fill', 'outline') and v is None: continue  # tkinter drops options that are None
            if v is None: continue
            item.opts[k] = v
    def _create(self, kind, args, kw):
        self._alive()
        args = list(args)
        options = {}
        if args and isinstance(args[-1], dict): options.update(args.pop())
        options.update(kw)
        coords = flatten(args)
        lengths = {'line': lambda n: n >= 4 and n % 2 == 0, 'polygon': lambda n: n >= 2 and n % 2 == 0, 'text': lambda n: n == 2, 'oval': lambda n: n == 4, 'rectangle': lambda n: n == 4, 'arc': lambda n: n == 4}
        if not lengths.get(kind, lambda n: n == 2)(len(coords)): raise TclError(f'wrong # coordinates: got {len(coords)} for a {kind}')
        if any(c != c or c in (float('inf'), float('-inf')) for c in coords): raise TclError('bad screen distance "nan"')
        item = Item(self.next_id, kind)
        item.coords = coords
        self._set(item, options)
        self.next_id += 1
        self.items.append(item)
        self.by_id[item.id] = item
        return item.id
    def create_line(self, *a, **k): return self._create('line', a, k)
    def create_polygon(self, *a, **k): return self._create('polygon', a, k)
    def create_oval(self, *a, **k): return self._create('oval', a, k)
    def create_rectangle(self, *a, **k): return self._create('rectangle', a, k)
    def create_arc(self, *a, **k): return self._create('arc', a, k)
    def create_text(self, *a, **k): return self._create('text', a, k)
    def create_image(self, *a, **k): return self._create('image', a, k)
    def create_bitmap(self, *a, **k): return self._create('bitmap', a, k)
    def create_window(self, *a, **k): return self._create('window', a, k)
    def delete(self, *tags):
        for t in tags:
            gone = set(i.id for i in self._find(t))
            self.items = [i for i in self.items if i.id not in gone]
            for g in gone: del self.by_id[g]
    # -- changing
    def itemconfigure(self, tag, cnf=None, **kw):
        options = dict(cnf or {}, **kw)
        if not options: return dict(self._find(tag)[0].opts) if self._find(tag) else None
        for i in self._find(tag): self._set(i, options)
    itemconfig = itemconfigure
    def itemcget(self, tag, option):
        found = self._find(tag)
        if not found: return ''
        option = ALIASES.get(option, option)
        v = ' '.join(found[0].tags) if option == 'tags' else found[0].opts[option]
        return v if isinstance(v, str) else str(v)
    def coords(self, tag, *args):
        found = self._find(tag)
        if not args: return list(found[0].coords) if found else []
        new = flatten(args)
        if any(c != c or c in (float('inf'), float('-inf')) for c in new): raise TclError('bad screen distance "nan"')
        if found:
            i = found[0]
            if i.kind in ('oval', 'rectangle', 'arc') and len(new) != 4: raise TclError('wrong # coordinates: expected 0 or 4')
            if i.kind == 'text' and len(new) != 2: raise TclError('wrong # coordinates: expected 0 or 2')
            if i.kind == 'line' and (len(new) < 4 or len(new) % 2): raise TclError('wrong # coordinates')
            if i.kind in ('oval', 'rectangle'): new = [min(new[0], new[2]), min(new[1], new[3]), max(new[0], new[2]), max(new[1], new[3])]
            i.coords = new
        return []
    def move(self, tag, dx, dy):
        for i in self._find(tag): i.coords = [c + (dx if k % 2 == 0 else dy) for k, c in enumerate(i.coords)]
    def moveto(self, tag, x='', y=''): raise SimUnsupported('moveto')
    def scale(self, tag, x, y, sx, sy):
        for i in self._find(tag): i.coords = [(x + (c - x) * sx) if k % 2 == 0 else (y + (c - y) * sy) for k, c in enumerate(i.coords)]
    def bbox(self, *tags):
        boxes = [b for t in tags for i in self._find(t) for b in [i.bbox()] if b is not None]
        if not boxes: return None
        import math
        return (math.floor(min(b[0] for b in boxes)) - 1, math.floor(min(b[1] for b in boxes)) - 1, math.ceil(max(b[2] for b in boxes)) + 1, math.ceil(max(b[3] for b in boxes)) + 1)
    # -- stacking
    def tag_raise(self, tag, above=None):
        up = self._find(tag)
        if not up: return
        ids = set(i.id for i in up)
        rest = [i for i in self.items if i.id not in ids]
        at = len(rest)
        if above is not None:
            ref = [k for k, i in enumerate(rest) if i in self._find(above)]
            if not ref: return
            at = ref[-1] + 1
        self.items = rest[:at] + up + rest[at:]
    def tag_lower(self, tag, below=None):
        down = self._find(tag)
        if not down: return
        ids = set(i.id for i in down)
        rest = [i for i in self.items if i.id not in ids]
        at = 0
        if below is not None:
            ref = [k for k, i in enumerate(rest) if i in self._find(below)]
            if not ref: return
            at = ref[0]
        self.items = rest[:at] + down + rest[at:]
    lift = tkraise = tag_raise
    lower = tag_lower
    # -- tags
    def find_withtag(self, tag): return tuple(i.id for i in self._find(tag))
    def find_all(self): return tuple(i.id for i in self.items)
    def find(self, *a):
        if a[0] == 'all': return self.find_all()
        if a[0] == 'withtag': return self.find_withtag(a[1])
        raise SimUnsupported('find ' + str(a))
    def gettags(self, tag):
        found = self._find(tag)
        return tuple(found[0].tags) if found else ()
    def addtag_withtag(self, new, tag):
        for i in self._find(tag):
            if new not in i.tags: i.tags.append(new)
    def addtag_all(self, new): self.addtag_withtag(new, 'all')
    def dtag(self, tag, old=None):
        for i in self._find(tag): i.tags = [t for t in i.tags if t != (old or tag)]
    def type(self, tag):
        found = self._find(tag)
        return found[0].kind if found else None
    def tag_bind(self, tag, sequence=None, func=None, add=None): return ''
    def canvasx(self, x, gridspacing=None): return float(x)
    def canvasy(self, y, gridspacing=None): return float(y)
    def itemlist(self): return [(i.kind, tuple(i.coords), tuple(sorted(i.look().items(), key=lambda p: p[0])), tuple(i.tags)) for i in self.items]
    # -- pictures
    def postscript(self, cnf=None, **kw):
        self._alive()
        options = dict(cnf or {}, **kw)
        text = '%!PS-Adobe-3.0 EPSF-3.0\n%%Creator: simulated Tk\n' + f'% colormode {options.get("colormode", "color")}\n' + \
            '\n'.join(repr((i.kind, [round(c, 6) for c in i.coords], sorted((k, str(v)) for k, v in i.look().items()))) for i in self.items if not i.hidden()) + '\n%%EOF\n'
        d = display()
        pending = (d.faults.get('postscript') or [None])[0]
        if not options.get('file') and pending != 'memory':  # the application writes the file itself: the fault strikes there
            d.written.append((None, self))
            return text
        f = d.fault('postscript')
        if f == 'memory': raise TclError('not enough memory to generate Postscript')
        if options.get('file'):
            path = options['file']
            if not isinstance(path, str): path = str(path)
            errors = {'denied': 'permission denied', 'missing': 'no such file or directory', 'isdir': 'illegal operation on a directory', 'readonly': 'read-only file system', 'toolong': 'file name too long', 'nofds': 'too many open files'}
            if f in errors: raise TclError(f'couldn\'t open "{path}": {errors[f]}')
            try: h = REAL_OPEN(path, 'w')
            except OSError as error: raise TclError(f'couldn\'t open "{path}": {error.strerror}') from None
            with h:
                if f in ('full', 'io'):
                    h.write(text[:len(text) // 3])
                    raise TclError({'full': f'problem writing postscript data to channel: no space left on device', 'io': f'error writing "{path}": I/O error'}[f])
                if f == 'oserror':
                    h.write(text[:len(text) // 2])
                    raise OSError(5, 'Input/output error', path)
                h.write(text)
            d.written.append((path, self))
            return ''
        return text

# ---------------------------------------------------------------- ttk
class Style:
    def __init__(self, master=None): self.options = {}
    def configure(self, style, query_opt=None, **kw): self.options.setdefault(style, {}).update(kw)
    def map(self, style, query_opt=None, **kw): pass
    def theme_use(self, name=None): return 'default'
    def theme_names(self): return ('default', 'clam', 'alt', 'classic')
    def lookup(self, *a, **k): return ''
    def layout(self, *a): return []

class Notebook(Misc):
    def __init__(self, master=None, **kw):
        super().__init__(master, **kw)
        self.pages = []
        self.page_opts = []
        self.selected = None
        self.traversal = False
    def add(self, child, **kw):
        self._alive()
        if not isinstance(child, Misc): raise TclError(f'bad window path name "{child}"')
        self.pages.append(child); self.page_opts.append(dict(kw))
        if self.selected is None: self.selected = 0
    def insert(self, pos, child, **kw):
        at = len(self.pages) if pos == 'end' else int(pos)
        self.pages.insert(at, child); self.page_opts.insert(at, dict(kw))
        if self.selected is None: self.selected = 0
        elif at <= self.selected: self.selected += 1
    def index(self, tab_id):
        self._alive()
        if tab_id == 'end': return len(self.pages)
        if tab_id == 'current':
            if self.selected is None: raise TclError('Invalid slave specification current')
            return self.selected
        if isinstance(tab_id, int) or (isinstance(tab_id, str) and tab_id.isdigit()):
            if not 0 <= int(tab_id) < len(self.pages): raise TclError(f'Slave index {tab_id} out of bounds')
            return int(tab_id)
        for i, p in enumerate(self.pages):
            if p is tab_id or p._w == tab_id: return i
        raise TclError(f'Invalid slave specification {tab_id}')
    def select(self, tab_id=None):
        if tab_id is None: return self.pages[self.selected]._w if self.selected is not None else ''
        self.selected = self.index(tab_id)
        self.root.deliver('<<NotebookTabChanged>>', self)
    def tab(self, tab_id, option=None, **kw):
        o = self.page_opts[self.index(tab_id)]
        if kw: o.update(kw); return None
        return o.get(option, '') if option is not None else dict(o)
    def tabs(self): return tuple(p._w for p in self.pages)
    def forget(self, tab_id):
        i = self.index(tab_id)
        del self.pages[i]; del self.page_opts[i]
        self.selected = None if not self.pages else min(self.selected, len(self.pages) - 1)
    hide = forget
    def enable_traversal(self): self.traversal = True

# ---------------------------------------------------------------- dialogs
def _ask(kind, options):
    d = display()
    d.asked += 1
    if not d.answers: return ''
    a = d.answers.pop(0)
    if isinstance(a, dict):
        if a.get('error'): raise TclError(a['error'])
        a = a['path']
    return a

def asksaveasfilename(**options): return _ask('save', options)
def asksaveasfile(mode='w', **options):
    p = _ask('save', options)
    return builtins.open(p, mode) if p else None
def askopenfilename(**options): return _ask('open', options)
class SaveAs:
    def __init__(self, master=None, **options): self.options = options
    def show(self, **options): return _ask('save', options)

def _message(kind, answer):
    def show(title=None, message=None, **options):
        display().dialogs.append((kind, str(title), ' '.join(str(x) for x in (message, options.get('detail')) if x)))
        return answer
    return show

ERROR_DIALOGS = ('warning', 'error')

def modules():
    tk = types.ModuleType('tkinter')
    tk.__path__ = []
    own = globals()
    for n in 'TclError TclVersion TkVersion Variable StringVar IntVar DoubleVar BooleanVar Event Misc Tk Frame Label Button Menu PhotoImage Canvas'.split(): setattr(tk, n, own[n])
    consts = dict(NO=0, FALSE=0, OFF=0, YES=1, TRUE=1, ON=1, N='n', S='s', W='w', E='e', NW='nw', SW='sw', NE='ne', SE='se', NS='ns', EW='ew', NSEW='nsew', CENTER='center', NONE='none', X='x', Y='y', BOTH='both', LEFT='left', TOP='top', RIGHT='right', BOTTOM='bottom',
        NORMAL='normal', DISABLED='disabled', ACTIVE='active', HIDDEN='hidden', CASCADE='cascade', CHECKBUTTON='checkbutton', COMMAND='command', RADIOBUTTON='radiobutton', SEPARATOR='separator', END='end', INSERT='insert', CURRENT='current', ANCHOR='anchor', ALL='all', FIRST='first', LAST='last', ROUND='round', BUTT='butt', MITER='miter', ARC='arc', CHORD='chord', PIESLICE='pieslice')
    for n, v in consts.items(): setattr(tk, n, v)
    tk.TkVersion = tk.TclVersion = 8.6
    tk.NoDefaultRoot = lambda: None
    const = types.ModuleType('tkinter.constants'); const.__dict__.update(consts)
    font = types.ModuleType('tkinter.font'); font.Font = Font; font.NORMAL, font.BOLD, font.ROMAN, font.ITALIC = 'normal', 'bold', 'roman', 'italic'
    font.nametofont = lambda name, root=None: Font()
    fd = types.ModuleType('tkinter.filedialog')
    fd.asksaveasfilename, fd.asksaveasfile, fd.askopenfilename, fd.SaveAs = asksaveasfilename, asksaveasfile, askopenfilename, SaveAs
    mb = types.ModuleType('tkinter.messagebox')
    for kind, answer in dict(info='ok', warning='ok', error='ok').items(): setattr(mb, 'show' + kind, _message(kind, answer))
    for n in ('askokcancel', 'askyesno', 'askretrycancel'): setattr(mb, n, _message(n, False))
    mb.askquestion = _message('question', 'no')
    ttk = types.ModuleType('tkinter.ttk')
    for n in 'Style Notebook Frame Label Button'.split(): setattr(ttk, n, own[n])
    sd = types.ModuleType('tkinter.simpledialog')
    tk.font, tk.filedialog, tk.messagebox, tk.ttk, tk.constants, tk.simpledialog = font, fd, mb, ttk, const, sd
    tk.__all__ = [n for n in vars(tk) if not n.startswith('_')]
    return {'tkinter': tk, 'tkinter.font': font, 'tkinter.filedialog': fd, 'tkinter.messagebox': mb, 'tkinter.ttk': ttk, 'tkinter.constants': const, 'tkinter.simpledialog': sd}

def install():
    """ Put the simulated modules in place: everything imported from now on gets these. """
    for name in list(sys.modules):
        if name == 'tkinter' or name.startswith('tkinter.') or name == '_tkinter': del sys.modules[name]
    sys.modules.update(modules())

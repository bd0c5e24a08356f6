"""A stand-in for tkinter without a display: widgets keep their options, places and bindings; a simulated user acts on them.

Only what the window toolkit does is imitated (variables and their conversions, widget life, events to bound functions);
everything the application does with it is the application's own code."""

import sys
import types

from matplotlib.backends.backend_agg import FigureCanvasAgg


class TclError(Exception):
    pass


class Widget:
    def __init__(self, master=None, **kw):
        self.master = master
        self.options = dict(kw)
        self.binds = {}
        self.children_ = []
        self.alive = True
        self.place_ = None
        self.protocols = {}
        if isinstance(master, Widget):
            master.children_.append(self)

    def _check(self):
        if not self.alive:
            raise TclError('invalid command name: the widget has been destroyed')

    def configure(self, **kw):
        self._check()
        self.options.update(kw)

    config = configure

    def __setitem__(self, k, v):
        self.configure(**{k: v})

    def __getitem__(self, k):
        return self.options.get(k, '')

    cget = __getitem__

    def bind(self, sequence=None, func=None, add=None):
        self._check()
        self.binds[sequence] = func

    def grid(self, **kw):
        self._check()
        self.place_ = kw

    def pack(self, **kw):
        self._check()
        self.place_ = kw

    place = pack

    def winfo_children(self):
        return list(self.children_)

    def protocol(self, name, func=None):
        self.protocols[name] = func

    def destroy(self):
        for c in list(self.children_):
            c.destroy()
        self.alive = False
        if isinstance(self.master, Widget) and self in self.master.children_:
            self.master.children_.remove(self)

    def winfo_geometry(self):
        return '900x500+10+20'

    def winfo_width(self):
        return 100

    winfo_reqwidth = winfo_reqheight = winfo_height = winfo_width

    def _nothing(self, *a, **k):
        return None

    for _n in ('update_idletasks update attributes withdraw title minsize maxsize resizable iconphoto focus_set focus_force option_add '
               'tk_setPalette mainloop set xview yview xview_moveto yview_moveto create_window itemconfigure columnconfigure rowconfigure '
               'grid_columnconfigure grid_rowconfigure lift transient grab_set grab_release wait_window deiconify after bell').split():
        locals()[_n] = _nothing
    del _n

    # -- the user ---------------------------------------------------------------------------------------
    def tree(self):
        out = [self]
        for c in self.children_:
            out += c.tree()
        return out

    def fire(self, sequence):
        self._check()
        f = self.binds.get(sequence)
        if f:
            f(types.SimpleNamespace(widget=self))

    def press(self):
        self._check()
        if self['state'] == 'disabled':
            return
        self.fire('<Button-1>')
        if self.alive and self.options.get('command'):
            self.options['command']()

    def type(self, text, keys=True):
        """Replace the content of an entry, key by key."""
        var = self['textvariable']
        for k in range(0 if text == '' else 1, len(text) + 1) if keys else [len(text)]:
            var.set(text[:k])
            self.fire('<KeyRelease>')
            if not self.alive:
                break


class Tk(Widget):
    geo = None

    def geometry(self, g=None):
        if g is not None:
            self.geo = g
        return self.geo

    def winfo_geometry(self):
        return self.geo or '1920x1080+0+0'


class Toplevel(Tk):
    def winfo_geometry(self):
        return '300x200+50+60'

    def geometry(self, g=None):
        return '300x200+50+60'


class Frame(Widget):
    pass


class Label(Widget):
    pass


class Button(Widget):
    pass


class Canvas(Widget):
    pass


class Scrollbar(Widget):
    pass


class Entry(Widget):
    pass


class Checkbutton(Widget):
    def toggle(self):
        self._check()
        v = self['variable']
        v.set(not v.get())
        if self.options.get('command'):
            self.options['command']()


class Menu(Widget):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.items = []

    def add_cascade(self, **k):
        self.items.append(('cascade', k))

    def add_command(self, **k):
        self.items.append(('command', k))

    def add_checkbutton(self, **k):
        self.items.append(('check', k))

    def add_separator(self, **k):
        pass

    def choose(self, label):
        for kind, k in self.items:
            if kind == 'cascade':
                if k['menu'].choose(label):
                    return True
            elif k.get('label') == label:
                if kind == 'check':
                    k['variable'].set(not k['variable'].get())
                k['command']()
                return True
        return False

    def checked(self, label):
        for kind, k in self.items:
            if kind == 'cascade':
                r = k['menu'].checked(label)
                if r is not None:
                    return r
            elif kind == 'check' and k['label'] == label:
                return k['variable'].get()
        return None


class Combobox(Entry):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.text = ''

    def current(self, i=None):
        self._check()
        values = list(self['values'])
        if i is None:
            return values.index(self.text) if self.text in values else -1
        self.text = values[i]
        if self['textvariable']:
            self['textvariable'].set(self.text)

    def get(self):
        self._check()
        return self.text

    def set(self, v):
        self._check()
        self.text = v

    def pick(self, i):
        self.current(i)
        self.fire('<<ComboboxSelected>>')


class PhotoImage:
    def __init__(self, file=None, **k):
        pass


class Variable:
    default = ''

    def __init__(self, master=None, value=None, name=None):
        self.raw = None
        self.set(self.default if value is None else value)

    def set(self, value):
        self.raw = '1' if value is True else '0' if value is False else str(value)

    def get(self):
        return self.raw


class StringVar(Variable):
    pass


class IntVar(Variable):
    default = 0

    def get(self):
        try:
            return int(self.raw)
        except ValueError:
            pass
        try:
            return int(float(self.raw))
        except (ValueError, OverflowError):
            raise TclError(f'expected floating-point number but got "{self.raw}"') from None


class DoubleVar(Variable):
    default = 0.0

    def get(self):
        try:
            return float(self.raw)
        except ValueError:
            raise TclError(f'expected floating-point number but got "{self.raw}"') from None


class BooleanVar(Variable):
    default = False

    def get(self):
        v = self.raw.lower()
        if v in ('1', 'true', 'yes', 'on'):
            return True
        if v in ('0', 'false', 'no', 'off'):
            return False
        raise TclError(f'expected boolean value but got "{self.raw}"')


class Style:
    def theme_use(self, *a):
        pass

    def map(self, *a, **k):
        pass

    def configure(self, *a, **k):
        pass


class Dialogs:
    """Answers of the user to dialogs, and what the dialogs said."""

    def __init__(self):
        self.file = ''
        self.yes = True
        self.said = []

    def reset(self):
        self.said = []


DIALOGS = Dialogs()


def _say(kind, answer):
    def f(title=None, message=None, **k):
        DIALOGS.said.append((kind, title))
        return answer() if answer else 'ok'
    return f


class Open:
    def __init__(self, *a, **k):
        pass

    def show(self):
        return DIALOGS.file


class Canvas_(FigureCanvasAgg):
    last = None

    def __init__(self, figure=None, master=None):
        super().__init__(figure)
        self.widget = Widget(master)
        Canvas_.last = self

    def draw(self):
        pass

    draw_idle = draw

    def get_tk_widget(self):
        return self.widget

    def set_cursor(self, c):
        pass


def modules():
    tk = types.ModuleType('tkinter')
    for k in (TclError, Widget, Tk, Toplevel, Frame, Label, Button, Canvas, Scrollbar, Entry, Checkbutton, Menu, PhotoImage, Variable,
              StringVar, IntVar, DoubleVar, BooleanVar):
        setattr(tk, k.__name__, k)
    tk.Misc = Widget
    ttk = types.ModuleType('tkinter.ttk')
    ttk.Style, ttk.Combobox, ttk.Button, ttk.Entry, ttk.Frame, ttk.Label = Style, Combobox, Button, Entry, Frame, Label
    font = types.ModuleType('tkinter.font')
    font.nametofont = lambda n: types.SimpleNamespace(configure=lambda **k: None, actual=lambda *a: {'size': 10})
    fd = types.ModuleType('tkinter.filedialog')
    fd.Open = Open
    fd.askopenfilename = lambda **k: DIALOGS.file
    fd.asksaveasfilename = lambda **k: DIALOGS.file
    mb = types.ModuleType('tkinter.messagebox')
    mb.showinfo, mb.showwarning, mb.showerror = _say('info', None), _say('warning', None), _say('error', None)
    mb.askyesno = _say('ask', lambda: DIALOGS.yes)
    mb.askokcancel = mb.askyesno
    agg = types.ModuleType('matplotlib.backends.backend_tkagg')
    agg.FigureCanvasTkAgg = Canvas_
    tk.ttk, tk.font, tk.filedialog, tk.messagebox = ttk, font, fd, mb
    return {'tkinter': tk, 'tkinter.ttk': ttk, 'tkinter.font': font, 'tkinter.filedialog': fd, 'tkinter.messagebox': mb,
            'matplotlib.backends.backend_tkagg': agg}


def load(name):
    """Import a module with the stand-in instead of tkinter."""
    import importlib

    fake = modules()
    real = {k: sys.modules.get(k) for k in fake}
    sys.modules.update(fake)
    try:
        return importlib.import_module(name)
    finally:
        for k, v in real.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v

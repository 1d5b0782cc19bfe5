"""what a script draws with matplotlib, recorded (read by the analyser in place of matplotlib.pyplot and matplotlib.collections, never executed)"""

FIGS = []
SAVED = []
SHOWN = []
CUR = [None]


class Line:
    def __init__(self, x, y, fmt, kw):
        self.x = x
        self.y = y
        self.fmt = fmt
        self.kw = kw


class LineCollection:
    def __init__(self, segments, **kw):
        self.segments = segments
        self.kw = kw


class Contours:
    def __init__(self, x, y, z, kw):
        self.x = x
        self.y = y
        self.z = z
        self.kw = kw


class Fill:
    def __init__(self, x, y1, y2, kw):
        self.x = x
        self.y1 = y1
        self.y2 = y2
        self.kw = kw


class Axes:
    def __init__(self, fig):
        self.figure = fig
        self.lines = []
        self.collections = []
        self.contours = []
        self.fills = []
        self.props = {}
        self.scatters = 0

    def plot(self, *args, **kw):
        fmt = kw.get("marker", None)
        if len(args) == 3:
            fmt = args[2]
        elif len(args) != 2:
            raise NotImplementedError("plot arguments")
        if len(args[0]) != len(args[1]):
            raise ValueError("x and y must have same first dimension")
        ln = Line(args[0], args[1], fmt, kw)
        self.lines.append(ln)
        return [ln]

    def add_collection(self, c, autolim=True):
        self.collections.append(c)
        return c

    def contourf(self, x, y, z, **kw):
        c = Contours(x, y, z, kw)
        self.contours.append(c)
        return c

    def fill_between(self, x, y1, y2=0, **kw):
        self.fills.append(Fill(x, y1, y2, kw))

    def set(self, **kw):
        for k in kw:
            if k not in ["xlabel", "ylabel", "title", "xlim", "ylim", "aspect"]:
                raise NotImplementedError("axes property")
            self.props[k] = kw[k]

    def set_xlabel(self, s, **kw):
        self.props["xlabel"] = s

    def set_ylabel(self, s, **kw):
        self.props["ylabel"] = s

    def set_title(self, s, **kw):
        self.props["title"] = s

    def set_aspect(self, a, **kw):
        self.props["aspect"] = a

    def axis(self, what):
        if what == "off":
            self.props["off"] = True
        elif what == "equal":
            self.props["aspect"] = "equal"
        else:
            raise NotImplementedError("axis")

    def set_axis_off(self):
        self.props["off"] = True

    def set_xlim(self, left=None, right=None, **kw):
        if right is None and not isinstance(left, (int, float)):
            self.props["xlim"] = left
        else:
            self.props["xlim"] = (left, right)

    def set_ylim(self, left=None, right=None, **kw):
        if right is None and not isinstance(left, (int, float)):
            self.props["ylim"] = left
        else:
            self.props["ylim"] = (left, right)

    def grid(self, *a, **kw):
        pass

    def get_figure(self):
        return self.figure


class AxesGrid:
    """array of axes; one-dimensional when squeezed"""

    def __init__(self, rows, squeezed):
        self.rows = rows
        self.squeezed = squeezed
        self.nr = len(rows)
        self.nc = len(rows[0])
        self.one = squeezed and (self.nr == 1 or self.nc == 1)
        self.flat = []
        for row in rows:
            self.flat.extend(row)

    @property
    def shape(self):
        if self.one:
            return (len(self.flat),)
        return (self.nr, self.nc)

    @property
    def size(self):
        return len(self.flat)

    def ravel(self):
        return self.flat

    def flatten(self):
        return self.flat

    def __len__(self):
        return self.shape[0]

    def __iter__(self):
        if self.one:
            return iter(self.flat)
        return iter(self.rows)

    def __getitem__(self, i):
        if self.one:
            if isinstance(i, tuple):
                raise IndexError("too many indices for array: array is 1-dimensional")
            return self.flat[i]
        if isinstance(i, tuple):
            return self.rows[i[0]][i[1]]
        return self.rows[i]


class Figure:
    def __init__(self, figsize):
        self.figsize = figsize
        self.axes = []
        self.nrows = 1
        self.ncols = 1
        self.current = None

    def gca(self):
        if self.current is None:
            self.current = Axes(self)
            self.axes.append(self.current)
        return self.current

    def tight_layout(self, *a, **kw):
        pass

    def subplots(self, nrows=1, ncols=1, squeeze=True, **kw):
        self.nrows = nrows
        self.ncols = ncols
        rows = []
        for i in range(nrows):
            row = []
            for j in range(ncols):
                a = Axes(self)
                self.axes.append(a)
                self.current = a
                row.append(a)
            rows.append(row)
        if squeeze and nrows == 1 and ncols == 1:
            return rows[0][0]
        return AxesGrid(rows, squeeze)

    def savefig(self, name, **kw):
        SAVED.append((name, self, [len(a.lines) for a in self.axes], [a.props.get("ylabel", None) for a in self.axes]))


def figure(num=None, figsize=None, **kw):
    if num is not None:
        raise NotImplementedError("numbered figure")
    f = Figure(figsize)
    FIGS.append(f)
    CUR[0] = f
    return f


def gcf():
    if CUR[0] is None:
        return figure()
    return CUR[0]


def gca():
    return gcf().gca()


def sca(ax):
    CUR[0] = ax.figure
    ax.figure.current = ax


def subplots(nrows=1, ncols=1, sharex=False, sharey=False, squeeze=True, figsize=None, **kw):
    f = figure(figsize=figsize)
    return f, f.subplots(nrows, ncols, squeeze=squeeze)


def plot(*args, **kw):
    return gca().plot(*args, **kw)


def xlabel(s, **kw):
    gca().set_xlabel(s)


def ylabel(s, **kw):
    gca().set_ylabel(s)


def title(s, **kw):
    gca().set_title(s)


def xlim(*a, **kw):
    gca().set_xlim(*a, **kw)


def ylim(*a, **kw):
    gca().set_ylim(*a, **kw)


def grid(*a, **kw):
    pass


def tight_layout(*a, **kw):
    pass


def savefig(name, **kw):
    gcf().savefig(name)


def show(*a, **kw):
    SHOWN.append(len(FIGS))


def close(*a, **kw):
    pass


class Case:
    """problem or recorded case: a value for each variable and unit"""

    def __init__(self, vals):
        self.vals = vals

    def get_val(self, name, units=None, **kw):
        return self.vals[name, units]

class Trace(dict):
    kind = ""

    def __init__(self, arg=None, **kw):
        super().__init__(arg or {}, **kw)


class Scatter(Trace):
    kind = "scatter"


class Scatter3d(Trace):
    kind = "scatter3d"


class Mesh3d(Trace):
    kind = "mesh3d"


def merge(a, b):
    for k, v in b.items():
        if isinstance(v, dict) and isinstance(a.get(k), dict):
            merge(a[k], v)
        else:
            a[k] = dict(v) if isinstance(v, dict) else v


class Figure:
    def __init__(self, data=None, layout=None, **kw):
        self.data, self.cells, self.layout = [], [], {}
        self.scenes, self.titles = {}, []
        self.traces_patch = []
        self.axes = []
        for t in data or []:
            self.add_trace(t)
        merge(self.layout, layout or {})

    def add_trace(self, trace, row=None, col=None, **kw):
        self.data.append(trace)
        self.cells.append((row, col))
        return self

    def add_traces(self, data, rows=None, cols=None, **kw):
        n = len(data)
        rows = [rows] * n if not isinstance(rows, (list, tuple)) else rows
        cols = [cols] * n if not isinstance(cols, (list, tuple)) else cols
        for t, r, c in zip(data, rows, cols):
            self.add_trace(t, r, c)
        return self

    def add_scatter(self, row=None, col=None, **kw):
        return self.add_trace(Scatter(**kw), row, col)

    def add_scatter3d(self, row=None, col=None, **kw):
        return self.add_trace(Scatter3d(**kw), row, col)

    def add_mesh3d(self, row=None, col=None, **kw):
        return self.add_trace(Mesh3d(**kw), row, col)

    def update_layout(self, dict1=None, overwrite=False, **kw):
        merge(self.layout, dict1 or {})
        merge(self.layout, kw)
        return self

    def update_scenes(self, patch=None, **kw):
        kw.pop("selector", None)
        merge(self.scenes, patch or {})
        merge(self.scenes, kw)
        return self

    def update_traces(self, patch=None, selector=None, **kw):
        for t in self.data:
            merge(t, patch or {})
            merge(t, kw)
        return self

    def add_annotation(self, arg=None, **kw):
        self.layout.setdefault("annotations", []).append(dict(arg or {}, **kw))
        return self

    def update_xaxes(self, *a, **kw):
        self.axes.append(("x", a, kw))
        return self

    def update_yaxes(self, *a, **kw):
        self.axes.append(("y", a, kw))
        return self

    def show(self, *a, **kw):
        pass

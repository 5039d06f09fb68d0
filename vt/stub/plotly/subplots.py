from .graph_objects import Figure


def make_subplots(rows=1, cols=1, subplot_titles=None, **kw):
    f = Figure()
    f.titles = list(subplot_titles or [])
    f.shape = (rows, cols)
    return f

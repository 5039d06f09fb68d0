"""A stand-in for plotly (which isn't installed): records what is plotted."""
from . import graph_objects, subplots  # noqa: F401

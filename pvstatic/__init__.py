"""Static analysis of pyvista-gridder: value graph, effects, layout and table rules."""

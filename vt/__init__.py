"""Runtime-monitoring harness for airinnova/pytornado."""

"""Stand-in for the part of matplotlib used by fg-plot: the arrows drawn are saved in quiver.json."""

"""Stand-in for cartopy.mpl."""

"""Stand-in for cartopy.mpl.geoaxes."""
from matplotlib.pyplot import Axes


class GeoAxes(Axes):
    pass

"""Stand-in for cartopy.crs."""


class Projection:
    pass


class Orthographic(Projection):
    def __init__(self, central_longitude=0.0, central_latitude=0.0, globe=None):
        self.central_longitude = central_longitude
        self.central_latitude = central_latitude

    def __eq__(self, other):
        return isinstance(other, Orthographic) and self.central_longitude == other.central_longitude and self.central_latitude == other.central_latitude

    def __ne__(self, other):
        return not self == other


class PlateCarree(Projection):
    def __init__(self, central_longitude=0.0, globe=None):
        self.central_longitude = central_longitude

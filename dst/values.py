"""JSON-able tagged values used in scenarios."""
import datetime
import decimal
from .bootstrap import real_datetime, real_date


def dec(v):
    """tagged JSON -> Python value handed to the application/server"""
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    if isinstance(v, list):
        t = v[0]
        if t == "b":
            return bytes.fromhex(v[1])
        if t == "dt":
            return real_datetime(*v[1])
        if t == "d":
            return real_date(*v[1])
        if t == "td":
            return datetime.timedelta(days=v[1][0], seconds=v[1][1], microseconds=v[1][2])
        if t == "f":
            return float(v[1])
        if t == "dec":
            return decimal.Decimal(v[1])
        if t == "rep":
            return v[1] * v[2]
        if t == "brep":
            return bytes.fromhex(v[1]) * v[2]
    raise ValueError(v)

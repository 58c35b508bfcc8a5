"""One function per property: props.run(ctx)."""
import importlib

WHERE = {"C01": "writer", "C02": "writer", "C04": "writer", "C05": "writer", "C06": "writer", "C07": "writer", "C15": "laz", "C03": "reader", "C13": "reader", "C14": "reader", "C19": "reader", "C23": "reader", "C11": "geometry", "C12": "geometry", "C08": "points", "C09": "points", "C10": "points", "C16": "config", "C17": "config", "C18": "config", "C21": "faults", "C22": "codec", "C20": "pipeline", "C24": "python", "C25": "values"}


def run(c):
    m = importlib.import_module("props." + WHERE[c.prop])
    getattr(m, c.prop)(c)

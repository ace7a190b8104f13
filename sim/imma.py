"""Writes IMMA1 lines from plain values, independently of the code under test (IMMA1 documentation)."""
import random

CORE = [("YR", 4), ("MO", 2), ("DY", 2), ("HR", 4), ("LAT", 5), ("LON", 6), ("IM", 2), ("ATTC", 1),
        ("TI", 1), ("LI", 1), ("DS", 1), ("VS", 1), ("NID", 2), ("II", 2), ("ID", 9), ("C1", 2), ("DI", 1),
        ("D", 3), ("WI", 1), ("W", 3), ("VI", 1), ("VV", 2), ("WW", 2), ("W1", 1), ("SLP", 5), ("A", 1),
        ("PPP", 3), ("IT", 1), ("AT", 4), ("WBTI", 1), ("WBT", 4), ("DPTI", 1), ("DPT", 4), ("SI", 2),
        ("SST", 4), ("N", 1), ("NH", 1), ("CL", 1), ("HI", 1), ("H", 1), ("CM", 1), ("CH", 1), ("WD", 2),
        ("WP", 2), ("WH", 2), ("SD", 2), ("SP", 2), ("SH", 2)]
assert sum(n for _, n in CORE) == 108
SCALE = {"HR": 0.01, "LAT": 0.01, "LON": 0.01, "W": 0.1, "SLP": 0.1, "AT": 0.1, "DPT": 0.1, "SST": 0.1}


# attachments the programs have no use for: number -> (length field, bytes that follow it)
OTHERS = {5: ("94", 90), 6: ("68", 64), 7: ("58", 54), 8: ("2U", 98), 9: ("32", 28), 95: ("61", 57), 96: ("53", 49)}


def other(number, seed):
    """An attachment full of digits, which are right in any of its fields, or of blanks."""
    length, n = OTHERS[number]
    r = random.Random(seed)
    return "%2d%s%s" % (number, length, "".join(r.choice("0123456789") for _ in range(n)) if seed % 3 else " " * n)


def field(rec, name, width):
    v = rec.get(name)
    if v is None:
        return " " * width
    if isinstance(v, int):
        s = "%*d" % (width, v)
    else:
        s = "%-*s" % (width, v)
    assert len(s) == width, (name, v)
    return s


def line(rec):
    """rec: integers in the file's own units; ID/UID strings."""
    if "raw" in rec:
        return rec["raw"]
    core = "".join(field(rec, n, w) for n, w in CORE)
    a1 = [" "] * 61
    s = field(rec, "DCK", 3) + field(rec, "SID", 3) + field(rec, "PT", 2)
    a1[6:14] = list(s)
    out = core + " 165" + "".join(a1)
    for number, seed in rec.get("ATT", ()):
        out += other(number, seed)
    if rec.get("UID") is not None:
        out += "9815" + "%-6s" % rec["UID"] + " " * 5
        if rec.get("NOSUP"):
            return out.rstrip()
    out += "99 0" + "0" + rec.get("SUPD", "SUPPL")
    return out


def val(rec, name):
    v = rec.get(name)
    if v is None:
        return None
    return v * SCALE[name] if name in SCALE else v

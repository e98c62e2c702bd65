"""Which groups (Verus files) and which native harness decide which property."""
# id: (groups, native binary or None)
PROPS = {
    "P01": dict(groups=["lock"], native="device"),
    "P02": dict(groups=["lock", "hsync", "core", "raw", "telnet"], native="device"),
    "P03": dict(groups=["lock"], native="device"),
    "P04": dict(groups=["status"], native="device"),
    "P05": dict(groups=["hmsg"], native="hislip"),
    "P06": dict(groups=["hmsg"], native="hislip"),
    "P07": dict(groups=["registry", "hconf"], native="hislip"),
    "P08": dict(groups=["hinit", "hmsg", "hconf"], native="hislip"),
    "P09": dict(groups=["hsync", "hconf", "device"], native="hislip"),
    "P10": dict(groups=["hsync", "hconf"], native="hislip"),
    "P11": dict(groups=["hsync", "hasync", "hconf", "device"], native="hislip"),
    "P12": dict(groups=["hasync", "hmsg", "hconf", "device", "lock"], native="hislip"),
    "P13": dict(groups=["xdr"], native="vxi11"),
    "P14": dict(groups=["record"], native="vxi11"),
    "P15": dict(groups=["rpc"], native="net"),
    "P16": dict(groups=["core", "setup"], native="net"),
    "P17": dict(groups=["core", "device"], native="net"),
    "P18": dict(groups=["core", "device"], native="net"),
    "P19": dict(groups=["portmap", "setup"], native="net"),
    "P20": dict(groups=["client"], native="net"),
    "P21": dict(groups=["raw", "device"], native="net"),
    "P22": dict(groups=["telnet", "device"], native="net"),
    "P23": dict(groups=["hmsg", "hinit", "hsync", "hasync", "registry"], native="hislip"),
    "P24": dict(groups=["xdr", "record", "rpc", "portmap", "core"], native="net"),
    "P25": dict(groups=["core", "setup"], native="net"),
    "P26": dict(groups=["core", "client", "setup"], native="net"),
    "P27": dict(groups=["setup", "accepts"], native="net"),
}
NOT_APPLICABLE = {}

"""device/src/lib.rs: a boxed device is the device in the box (P09, P12, P17, P18, P21, P22)."""
import re
from rx import File, Render, Contract, Lost
from vx import Group
from common import wrap

ITEMS = r'''
// what is done to a device, and what came of it
enum Call { Exec(Seq<u8>, Option<Vec<u8>>), Status(Result<u8, DeviceError>), Trig(Source, Result<(), DeviceError>), Clear(Result<(), DeviceError>), Remote(bool, Result<(), DeviceError>), Lockout(bool) }
trait Device {
    spec fn log(&self) -> Seq<Call>;
'''
PROPS = {"execute": ("P09,P17,P21,P22", "Call::Exec(cmd@, r)"), "get_status": ("P12,P18", "Call::Status(r)"), "trigger": ("P09,P18", "Call::Trig(source, r)"), "clear": ("P11,P18", "Call::Clear(r)"),
         "set_remote": ("P12,P18", "Call::Remote({0}, r)"), "set_local_lockout": ("P12,P18", "Call::Lockout({0})")}


def build():
    f = File("device/src/lib.rs")
    R = Render("device")
    out = []
    ft = File("device/src/trigger.rs")
    for g, n in ((f, "DeviceError"), (ft, "Source")):
        it = g.find("enum", n)
        out.append(R.clean(g, it.head, it.hi, []))
    tr = f.find("trait", "Device")
    sigs = []
    for m in tr.members:
        if m.kind != "fn":
            continue
        if m.name not in PROPS:
            R.flag(f"Device::{m.name} is new")
            continue
        T = f.toks
        end = m.body if m.body is not None else m.hi - 1
        t = R.clean(f, m.head, end, []).strip().rstrip(";")
        a = re.search(r"&mut self\s*,\s*(\w+)\s*:", t)
        ps, call = PROPS[m.name]
        arg = a[1] if a else ""
        call = re.sub(r"\b(cmd|source)\b", arg, call).format(arg)
        t = re.sub(r"->\s*(.*)$", r"-> (r: \1)", t, flags=re.S)
        sigs.append(f"    {t}\n        ensures /*{ps}*/ final(self).log() == old(self).log().push({call});\n")
    if len(sigs) != len(PROPS):
        raise Lost("the methods of Device")
    im = [i for i in f.items if i.kind == "impl" and re.match(r"impl<(\w+):Device(\+\?Sized)?>DeviceforBox<\1>", i.header.replace(" ", ""))]
    if len(im) != 1:
        raise Lost("Device for Box")
    body = [R.fn(m, Contract(""), f"Box::{m.name}") for m in im[0].members if m.kind == "fn"]
    for n in PROPS:
        if n not in [m.name for m in im[0].members]:
            d = [m for m in tr.members if m.kind == "fn" and m.name == n and m.body is not None]
            if not d:
                raise Lost(f"Box::{n}")
            body.append(R.fn(d[0], Contract(""), f"Box::{n} (default)"))
    txt = "\n".join(out) + ITEMS + "".join(sigs) + "}\nimpl<DEV: Device> Device for Box<DEV> {\n    spec fn log(&self) -> Seq<Call> { (**self).log() }\n" + "\n".join(body) + "}\n"
    return Group("device", wrap(txt), R, trusted=["a Box of an unsized device is like one of a sized device (the verifier has no unsized types)"], default_props=["P09", "P18"], panic_props=["P09"])

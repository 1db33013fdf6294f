"""What an independent parser (expat) sees in harvests and queries."""
import xml.parsers.expat
from model import T, SPACES

class Prefix:
    """The expressions completely read before the first error, as expat sees the file."""

    def __init__(self, data, root="mws:harvest"):
        self.root = root
        self.root_attrs = None
        self.exprs = []             # (url, T, end byte offset)
        self.error = None
        self.stack = []
        self.skip = 0
        self.state = "doc"
        self.cur = []               # T stack in an expression
        p = xml.parsers.expat.ParserCreate()
        p.buffer_text = False
        p.StartElementHandler = self.start
        p.EndElementHandler = self.end
        p.CharacterDataHandler = self.chars
        self.p = p
        self.depth = 0
        self.maxdepth = 0
        try:
            p.Parse(data, True)
        except xml.parsers.expat.ExpatError as e:
            self.error = (p.ErrorByteIndex, str(e))
        except (LookupError, ValueError) as e:
            self.error = (0, str(e))        # encodings expat does not know

    def start(self, name, attrs):
        self.depth += 1
        self.maxdepth = max(self.depth, self.maxdepth)
        if self.skip:
            self.skip += 1
        elif self.state == "doc":
            if name == self.root:
                self.state = "harvest"
                self.root_attrs = dict(attrs)
            else:
                self.skip = 1
        elif self.state == "harvest":
            if name == "mws:expr":
                self.state = "expr"
                self.url = attrs.get("url", "")
            else:
                self.skip = 1
        else:
            if name.startswith("m:") and len(name) > 2:
                name = name[2:]
            t = T(name, "", attrs=dict(attrs),
                  kind={"mws:qvar": "v", "mws:range": "r"}.get(name, "c"))
            if self.cur:
                self.cur[-1].kids.append(t)
            self.cur.append(t)

    def end(self, name):
        self.depth -= 1
        if self.skip:
            self.skip -= 1
        elif self.state == "expr":
            if not self.cur:
                self.state = "harvest"
            else:
                t = self.cur.pop()
                if t.kind == "v":
                    t.name = t.attrs.get("name", t.text.translate(
                        {ord(c): None for c in SPACES})) or None
                    t.kids = []
                elif t.kind == "r":
                    t.low, t.high = t.attrs.get("low"), t.attrs.get("high")
                    t.kids = []
                if not self.cur:
                    self.exprs.append((self.url, t, self.p.CurrentByteIndex + len(
                        name.encode("utf-8")) + 3))
        elif self.state == "harvest":
            self.state = "doc"

    def chars(self, s):
        if self.state == "expr" and self.cur and not self.skip:
            self.cur[-1].text += s

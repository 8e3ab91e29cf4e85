"""C28: reading a document takes in nothing but this document"""
import os
import re
import socket
import sys
import threading
import c01_gen
import doc
from doc import ar_document, ar_reader, ar_writer, s
from props import c07

ID = "C28"
QUICK, THOROUGH = 20000, 300000
SCRATCH = ""
HARMLESS = ["dtd", "public", "declared", "stylesheet", "model", "schema", "base", "attribute", "notation"]
REFERS = ["parameter", "text", "element", "from dtd", "include", "include text", "attribute value"]
FORMS = ["{f}", "./{f}", "{d}/{f}", "file://{d}/{f}", "http://127.0.0.1:{p}/{f}"]
RULE = """A case is a generated document or a single element of it, as text or file, into which one to three references to
other resources are put: external DTD subsets (SYSTEM and PUBLIC), external general and parameter entities that are declared
only or referred to in text, attributes and between elements, entities and attribute defaults of an external DTD,
notations, XInclude elements, style sheets, schema locations, xml:base; the target is a text, a package or a DTD named by a relative or absolute
path, a file URL or a URL of a server that waits for requests. If nothing of it is referred to, the result must be exactly the
generated document. Otherwise it's an exception or a document; in all cases without the contents of the other
resource, without a request to the server and without opening other files. Non-trivial: the target exists and the document has at
least three attributes."""
SECRET = "Can4ryOfTheOtherFile"
OTHERS = {"other.txt": SECRET,
          "other.arxml": f'<AR-PACKAGE xmlns="{doc.NS}"><SHORT-NAME>{SECRET}</SHORT-NAME></AR-PACKAGE>',
          "other.dtd": f'<!ENTITY ext "{SECRET}">\n<!ATTLIST AR-PACKAGE UUID CDATA "{SECRET}">\n'
                       f'<!ATTLIST SHORT-NAME T CDATA "{SECRET}">\n'}
HOME: dict = {}


def generate(rng, i, tier):
    """Case number i"""
    case = c07._plain(c01_gen.generate(rng, i, tier))
    case["file"] = rng.random() < 0.6
    case["tricks"] = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        trick = rng.choice(HARMLESS if rng.random() < 0.5 else REFERS)
        name = {"dtd": "other.dtd", "public": "other.dtd", "parameter": "other.dtd", "from dtd": "other.dtd",
                "attribute": "other.dtd", "element": "other.arxml", "include": "other.arxml"}.get(trick, "other.txt")
        case["tricks"].append([trick, rng.choice(FORMS), name if rng.random() < 0.95 else "missing.txt", rng.randrange(1000)])
    case["element"] = i % 7 == 3
    return case


def nontrivial(case):
    """See RULE"""
    return c01_gen.nontrivial(case) and any(t[2] != "missing.txt" for t in case["tricks"])


def labels(case):
    """Distribution"""
    for trick, form, name, _ in case["tricks"]:
        yield "reference " + trick
        yield "target " + form.split(":")[0]
        yield "target " + name
    yield "file" if case["file"] else "text"


def home():
    """Other resources and the server of this process"""
    if HOME.get("pid") != os.getpid():
        HOME.clear()
        HOME.update(pid=os.getpid(), requests=0, opened=[], watch=False, dir="")
        try:
            server = socket.create_server(("127.0.0.1", 0))
            HOME["port"] = server.getsockname()[1]
            threading.Thread(target=serve, args=(server,), daemon=True).start()
        except OSError:  # no network at all
            HOME["port"] = 9
        sys.addaudithook(watch)
    if HOME["dir"] != os.path.join(SCRATCH, "c28") or not os.path.isdir(HOME["dir"]):
        HOME["dir"] = os.path.join(SCRATCH, "c28")
        os.makedirs(HOME["dir"], exist_ok=True)
        for name, text in OTHERS.items():
            with open(os.path.join(HOME["dir"], name), "w", encoding="utf-8") as fh:
                fh.write(text)
    return HOME


def serve(server):
    """Counts and answers requests"""
    while True:
        conn, _ = server.accept()
        HOME["requests"] += 1
        with conn:
            conn.settimeout(2)
            try:
                name = conn.recv(4096).split(b" ")[1].decode().strip("/")
                body = OTHERS.get(name, SECRET).encode()
                conn.sendall(b"HTTP/1.0 200 OK\r\nContent-Length: %d\r\n\r\n" % len(body) + body)
            except (OSError, IndexError):
                pass


def watch(event, args):
    """Audit hook"""
    if not HOME.get("watch"):
        return
    if event == "open" and isinstance(args[0], (str, bytes)):
        path = os.path.abspath(os.fsdecode(args[0]))
        if path.startswith(HOME["dir"] + os.sep) and os.path.basename(path) != "doc.arxml":
            HOME["opened"].append(path)
    elif event in ("socket.connect", "urllib.Request", "subprocess.Popen", "os.system", "os.exec", "os.posix_spawn"):
        HOME["opened"].append(event)


def put(text, tricks):
    """Document with references to other resources"""
    subset, doctype, root, before = [], "", "", ""
    for k, (trick, form, name, where) in enumerate(tricks):
        url = form.format(f=name, d=HOME["dir"], p=HOME["port"])
        spot = None
        if trick in ("dtd", "public", "from dtd"):
            doctype = f'PUBLIC "-//other//DTD//EN" "{url}"' if trick == "public" else f'SYSTEM "{url}"'
            spot = "&ext;" if trick == "from dtd" else None
        elif trick == "declared":
            subset.append(f'<!ENTITY d{where} SYSTEM "{url}">')
        elif trick == "parameter":
            subset.append(f'<!ENTITY % p{where} SYSTEM "{url}">%p{where};')
        elif trick == "attribute":
            subset.append(f'<!ENTITY % a{where} SYSTEM "{url}">')
        elif trick == "notation":
            subset.append(f'<!NOTATION n{k} SYSTEM "{url}"><!ENTITY u{k} SYSTEM "{url}" NDATA n{k}>')
        elif trick in ("stylesheet", "model"):
            before += f'<?xml-{trick} href="{url}" type="text/xsl"?>'
        elif trick == "schema":
            root += f' xsi:noNamespaceSchemaLocation="{url}"' if "noNamespace" not in root else ""
        elif trick == "base":
            root += f' xml:base="{url}"' if "xml:base" not in root else ""
        elif trick == "attribute value":
            subset.append(f'<!ENTITY v{where} SYSTEM "{url}">')
            root += f' T="&v{where};"' if " T=" not in root else ""
        elif trick in ("include", "include text"):
            kind = ' parse="text"' if trick == "include text" else ""
            spot = f'<xi:include xmlns:xi="http://www.w3.org/2001/XInclude" href="{url}"{kind}/>'
        else:
            subset.append(f'<!ENTITY e{where} SYSTEM "{url}">')
            spot = f"&e{where};"
        if spot:
            at = [m.end() for m in re.finditer(r">(?=[^<]*\S[^<]*</)" if trick in ("text", "from dtd", "include text") else r">(?=\s*<)", text)
                  if m.end() > text.find("<AUTOSAR")]
            if at:
                here = at[where % len(at)]
                text = text[:here] + spot + text[here:]
    tag = re.search(r"<(?!\?|!)([\w:-]+)", text)
    if subset or doctype:
        before += f"<!DOCTYPE {tag.group(1)} {doctype}" + (" [" + "\n".join(dict.fromkeys(subset)) + "]" if subset else "") + ">\n"
    return text[:tag.start()] + before + text[tag.start():tag.end()] + root + text[tag.end():]


def run(case):
    """Oracle"""
    where = home()
    document = doc.build(case)
    writer = ar_writer.Writer()
    element = case["element"] and document.packages[0].elements and not any(t[0] == "schema" for t in case["tricks"])
    if element:
        clean = writer.write_str_elem(document.packages[0].elements[0])
    else:
        clean = writer.write_str(document, False)
    text = put(clean, case["tricks"])
    path = os.path.join(where["dir"], "doc.arxml")
    use_file = case["file"] and not element
    if use_file:
        with open(path, "w", encoding="utf-8") as fh:
            fh.write(text)
    reader = ar_reader.Reader()
    got = error = None
    back = os.getcwd()
    os.chdir(where["dir"])
    where["opened"].clear()
    where["watch"] = True
    try:
        with doc.captured() as buf:
            if element:
                got = reader.read_str_elem(text)
            else:
                got = reader.read_file(path) if use_file else reader.read_str(text)
    except Exception as exc:  # pylint: disable=broad-except
        error = exc
    finally:
        where["watch"] = False
        os.chdir(back)
    if where["opened"]:
        return f"reading opens {where['opened'][0]}"
    if where["requests"]:
        where["requests"] = 0
        return "reading sends a request to a server"
    if SECRET in buf.getvalue() or SECRET in str(error):
        return f"the contents of another file are reported: {buf.getvalue()[:200]} {error!r}"
    if got is not None:
        with doc.captured():
            again = ar_writer.Writer().write_str_elem(got) if element else ar_writer.Writer().write_str(got, False)
        if SECRET in again:
            return "the contents of another file are part of the document"
    if all(t[0] in HARMLESS for t in case["tricks"]):
        if error is not None:
            return f"a reference that isn't used leads to {error!r}"
        if buf.getvalue():
            return f"a reference that isn't used is reported: {buf.getvalue()[:300]}"
        if again != clean:
            return "a reference that isn't used changes the document"
    return None


def shrink(case):
    """Simpler cases"""
    for i in range(len(case["tricks"])):
        if len(case["tricks"]) > 1:
            yield {**case, "tricks": case["tricks"][:i] + case["tricks"][i + 1:]}
    yield from doc.shrink(case)


__all__ = ["ar_document", "s"]

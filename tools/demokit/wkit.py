"""A simulated evaluation worker: reads questions, answers them."""
import json, os, sys, threading

TMP = sys.argv[1]
out = os.fdopen(os.dup(1), "wb")
inp = os.fdopen(0, "rb")
lock = threading.Lock()


def send(m):
    m["jsonrpc"] = "2.0"
    b = json.dumps(m).encode()
    with lock:
        out.write(b"Content-Length: %d\r\n\r\n" % len(b) + b)
        out.flush()


def answer(m, result):
    send({"id": m["id"], "result": result})


def error(m, text="failed"):
    send({"id": m["id"], "error": {"code": -32001, "message": text}})


def questions():
    while True:
        n = None
        while True:
            l = inp.readline()
            if not l:
                return
            l = l.strip()
            if not l:
                break
            if l.lower().startswith(b"content-length:"):
                n = int(l.split(b":")[1])
        m = json.loads(inp.read(n))
        if m.get("method") == "exit":
            return
        yield m


def note(text):
    """Appends a line to the demo's record."""
    with open(TMP + "/record", "a") as f:
        f.write(text + "\n")


def pkg(token):
    return {"Meta": {"Type": 6, "Location": None}, "ValueDesc": None,
            "PackageDesc": {"Name": token, "PName": token, "Version": token,
                            "Description": token, "LongDescription": None,
                            "Position": "/nix/%s.nix:3" % token,
                            "Homepage": None}}


def option(token):
    return {"Description": token, "Declarations": [], "Definitions": [],
            "Example": None, "Default": None,
            "Type": {"Name": token, "Description": token}}

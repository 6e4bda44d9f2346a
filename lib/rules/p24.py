"""Flow-insensitive taint analysis over the compiler's intermediate representation of the relayer, the
command line tool and the two libraries. Secrets are the seed phrase, wallet import strings, private keys in a
printable form, the API key and the address of the Bitcoin node with its password; they are followed through
locals, fields, closures, coroutines, local calls and the text-carrying results of library calls. A place where
such a value, or a value of a type whose printed form contains one, reaches the log, a panic message, an error
or the event record is a violation."""
import json
from fw import *
import prep

SCOPE = "romeo"
LEVEL = "other"
RULE = "no secret text flows into tracing/log events, printed text, panic or expect messages, error values, Debug/Display output or serialised events"
ASSUME = ["the Debug form of a secp256k1 secret key is a fingerprint and a library's own error texts do not repeat secrets they were given (serde, url, bip39, base58)",
          "what the command line tool prints as its result is what P26 and P31 say"]

SECRET = ("secp256k1::key::SecretKey", "secp256k1::key::KeyPair", "secp256k1::key::one_key", "bitcoin::util::bip32::ExtendedPrivKey", "bitcoin::util::key::PrivateKey",
          "bip39::Mnemonic", "stacks_core::crypto::wif::WIF", "blockstack_lib::types::chainstate::StacksPrivateKey", "blockstack_lib::util::secp256k1::Secp256k1PrivateKey")
# which printed forms of these repeat the secret
SHOWN = {"debug": ("bip39::Mnemonic", "stacks_core::crypto::wif::WIF"),
         "display": ("bitcoin::util::bip32::ExtendedPrivKey", "bitcoin::util::key::PrivateKey", "bip39::Mnemonic", "stacks_core::crypto::wif::WIF"),
         "serde": SECRET}
# fields that hold secret text
SOURCES = {"romeo": ("mnemonic", "hiro_api_key", "bitcoin_node_url"), "core": ("mnemonic", "wif", "drawee_wif")}
TEXTY = ("alloc::string::String", "url::Url", "std::path::PathBuf", "std::path::Path", "std::ffi::os_str::OsString", "std::ffi::os_str::OsStr", "serde_json::value::Value",
         "serde_json::map::Map", "core::fmt::Arguments", "core::fmt::rt::Argument", "anyhow::Error", "core::io::error::Error", "std::io::error::Error",
         "reqwest::request::Request", "bytes::bytes::Bytes", "bytes::bytes_mut::BytesMut", "core::str::pattern::Pattern")
NAMED = ("HeaderValue", "HeaderMap", "RequestBuilder", "Request", "Chars", "CharIndices", "Split", "SplitN", "RSplit", "SplitWhitespace", "Lines", "Bytes", "DisplaySecret", "ParseError")
CONTAIN = ("Vec", "VecDeque", "Option", "Result", "Box", "Arc", "Rc", "Mutex", "MutexGuard", "RwLock", "Cow", "HashMap", "BTreeMap", "Pin", "Poll", "ControlFlow", "Map", "IntoIter", "Iter",
           "Rev", "Filter", "Enumerate", "Chain", "Take", "Skip", "Zip", "Cloned", "Copied", "Once", "Peekable", "FlatMap", "Ready", "Wrapping", "RefCell", "Ref", "RefMut", "Cell", "ManuallyDrop",
           "MaybeUninit", "OnceCell", "Lazy", "LazyLock", "OnceLock", "Unique", "NonNull", "Global")
CLEAN = ("url::Url::username", "url::Url::host", "url::Url::host_str", "url::Url::port", "url::Url::scheme", "url::Url::path", "url::Url::domain", "url::Url::set_password", "url::Url::set_username", "url::Url::port_or_known_default")
NOKEY = ("sign", "public_key", "fingerprint", "x_only", "verify", "identifier")


def sink(n):
    """what a function does with the text it is given, if it shows it"""
    last = n.split("::")[-1]
    if n.startswith(("tracing::", "tracing_core::", "log::", "env_logger::")):
        return "the log"
    if n in ("std::io::stdio::_eprint", "std::io::_eprint"):
        return "the error output"
    if n in ("std::io::stdio::_print", "std::io::_print"):
        return "the output"
    if n.startswith(("core::panicking::", "std::panicking::", "std::rt::begin_panic", "core::option::expect_failed", "core::result::unwrap_failed")):
        return "a panic message"
    if n.startswith("anyhow::") and (last in ("msg", "new", "context", "with_context", "format_err", "must_use", "adhoc") or "__private" in n or "kind" in n):
        return "an error"
    if n.endswith(("io::error::Error::new", "io::error::Error::other", "io::Error::new", "io::Error::other")):
        return "an error"
    if "::fmt::Formatter::" in n or "::fmt::builders::" in n:
        return "a printed form"
    return None


def writes(n):
    last = n.split("::")[-1]
    return last in ("write_all", "write_all_buf", "write", "write_fmt", "write_buf", "write_vectored") or n.startswith(("std::fs::write", "tokio::fs::write")) or n.startswith("serde_json::ser::to_writer") or n.startswith("serde_json::to_writer")


def args_of(t):
    return [x for x in t.get("a", []) or [] if isinstance(x, dict)]


def strip(t):
    while isinstance(t, dict) and t["k"] in ("ref", "ptr"):
        t = t["t"]
    return t


class Taint:
    def __init__(self, prog, which, beside=None):
        self.p = prog
        self.beside = beside.adts if beside else {}
        self.which = which
        self.vars = set()      # (body, local) or (body, local, tuple index)
        self.fields = {}       # (type or closure, variant, index) -> why
        self.rets = set()
        self.changed = True
        self.hits = {}
        self.sites = 0
        self.flows = 0
        self.derived = {im["id"] for im in self.impls() if im.get("derived")}
        self.secretimpls = [im["id"] + "::" for im in self.impls() if im["self"][0] == "adt" and im["self"][1] in SECRET]
        self.errors = {im["self"][1] for im in self.impls() if im["trait"].endswith("::error::Error") and im["self"][0] == "adt"}
        self.shown = {}
        for im in list(self.impls()) + list(beside.impls if beside else []):
            if im["self"][0] == "adt":
                self.shown.setdefault((im["trait"].split("::")[-1], im["self"][1]), im.get("derived"))
        self.memo = {}
        self.bodies = {b: x for b, x in prog.bodies.items() if not self.is_derived(b) and (which == "romeo" or self.handles(x))}
        self.sources()

    def impls(self):
        return self.p.impls.values() if isinstance(self.p.impls, dict) else self.p.impls

    @staticmethod
    def handles(x):
        """of the libraries, the parts that are given a seed phrase or a wallet import string"""
        n = x["name"]
        return not n.startswith(("stacks_core::", "sbtc_core::", "<")) or any(q in n for q in ("wallet", "wif", "::bip32", "mnemonic"))

    def is_derived(self, b):
        return any(b.startswith(d + "::") for d in self.derived)

    # ------------------------------------------------------------ sources
    def sources(self):
        self.src = []
        for path, a in self.p.adts.items():
            if not a.get("local"):
                continue
            for vi, v in enumerate(a["v"]):
                for fi, f in enumerate(v["f"]):
                    if f["n"] in SOURCES[self.which] and self.texty_field(f["t"]):
                        self.fields[(path, vi, fi)] = f"{path.split('::')[-1]}.{f['n']}"
                        self.src.append(f"{path}.{f['n']}")

    def texty_field(self, t):
        t = t[2] if t[0] == "ref" else t
        if t[0] in ("str",):
            return True
        if t[0] == "adt":
            return t[1] in TEXTY or any(self.texty_field(x) for x in t[2] if isinstance(x, tuple))
        return t[0] in ("param",)

    # ------------------------------------------------------------ types
    def carrier(self, t):
        """may a value of this type hold text?"""
        if t is None:
            return True
        k = t["k"]
        if k in ("ref", "ptr", "slice", "array"):
            i = t["t"]
            if k in ("slice", "array") and i["k"] == "num":
                return i["n"] == "u8"
            return self.carrier(i)
        if k in ("str", "char", "param", "alias", "dyn", "other"):
            return True
        if k == "tuple":
            return any(self.carrier(x) for x in args_of(t))
        if k == "adt":
            p = t["p"]
            last = p.split("::")[-1]
            if p in TEXTY or last in NAMED:
                return True
            if last in CONTAIN or p.startswith(("core::iter::", "core::str::", "core::slice::")):
                return any(self.carrier(x) or last == "Vec" and x["k"] == "num" and x.get("n") == "u8" for x in args_of(t))
            a = self.p.adts.get(p)
            if a is not None and a.get("local"):
                return any(self.carrier_t(f["t"]) for v in a["v"] for f in v["f"])
            return False
        return False

    def carrier_t(self, t, depth=3):
        """the same for the field types of a local type"""
        if depth == 0:
            return False
        if t[0] in ("str", "param", "dyn"):
            return True
        if t[0] in ("ref",):
            return self.carrier_t(t[2], depth)
        if t[0] == "adt":
            last = t[1].split("::")[-1]
            return t[1] in TEXTY or last in NAMED or last in CONTAIN and any(isinstance(x, tuple) and self.carrier_t(x, depth - 1) for x in t[2])
        return False

    def shows(self, t, mode, depth=8):
        """does the printed form of a value of this type contain a secret? returns what"""
        if not isinstance(t, dict) or depth == 0:
            return None
        k = t["k"]
        if k in ("ref", "ptr", "slice", "array"):
            return self.shows(t["t"], mode, depth - 1)
        if k == "tuple":
            return next((r for r in (self.shows(x, mode, depth - 1) for x in args_of(t)) if r), None)
        if k != "adt":
            return None
        return self.shows_adt(t["p"], [self.shows(x, mode, depth - 1) for x in args_of(t)], mode)

    def shows_t(self, t, mode):
        if not isinstance(t, tuple) or not t:
            return None
        if t[0] in ("ref",):
            return self.shows_t(t[2], mode)
        if t[0] in ("slice", "array"):
            return self.shows_t(t[1], mode)
        if t[0] == "tuple":
            return next((r for r in (self.shows_t(x, mode) for x in t[1]) if r), None)
        if t[0] == "adt":
            return self.shows_adt(t[1], [self.shows_t(x, mode) for x in t[2]], mode)
        return None

    def shows_adt(self, p, inner, mode):
        if p in SHOWN[mode]:
            return p.split("::")[-1]
        if p.split("::")[-1] in CONTAIN:
            return next((r for r in inner if r), None)
        key = (p, mode)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = None
        a = self.p.adts.get(p)
        if a is None or not a.get("local"):
            a = self.beside.get(p)
        r = None
        if a is not None and a.get("local") and mode != "display":
            tr = "Debug" if mode == "debug" else "Serialize"
            if self.shown.get((tr, p)):
                for vi, v in enumerate(a["v"]):
                    for fi, f in enumerate(v["f"]):
                        r = r or self.fields.get((p, vi, fi)) or self.shows_t(f["t"], mode)
        r = r or next((x for x in inner if x), None)
        self.memo[key] = r
        return r

    def secret_type(self, t):
        t = strip(t)
        return isinstance(t, dict) and t["k"] == "adt" and t["p"] in SECRET

    # ------------------------------------------------------------ places
    def lty(self, b, l):
        ls = self.bodies[b]["locals"] if b in self.bodies else self.p.bodies[b]["locals"]
        return ls[l] if l < len(ls) else None

    def node(self, b, place):
        """(the node a place lies in, its type)"""
        l, projs = place[0], place[1] or []
        cur = ("v", b, l)
        t = self.lty(b, l)
        variant = 0
        for pr in projs:
            if pr[0] == "deref":
                t = t["t"] if isinstance(t, dict) and t["k"] in ("ref", "ptr") else (args_of(t)[0] if isinstance(t, dict) and t["k"] == "adt" and args_of(t) else t)
            elif pr[0] == "downcast":
                variant = pr[1]
            elif pr[0] == "field":
                if isinstance(t, dict) and t["k"] in ("closure", "coroutine"):
                    cur = ("f", t["p"], 0, pr[1])
                elif isinstance(t, dict) and t["k"] == "adt" and (self.p.adts.get(t["p"]) or {}).get("local"):
                    cur = ("f", t["p"], variant, pr[1])
                elif isinstance(t, dict) and t["k"] == "tuple" and cur[0] == "v" and len(cur) == 3:
                    cur = ("v", b, l, pr[1])
                variant = 0
                t = pr[2]
            elif pr[0] in ("index", "constindex", "constant_index"):
                t = t.get("t", t) if isinstance(t, dict) else t
        return cur, t

    def has(self, node):
        if node[0] == "f":
            return node[1:] in self.fields
        if node[1:] in self.vars:
            return True
        if len(node) == 4:
            return (node[1], node[2]) in self.vars
        # a tuple, one of whose parts is
        return any((node[1], node[2], i) in self.vars for i in range(6))

    def put(self, node, why):
        if node[0] == "f":
            if node[1:] not in self.fields:
                self.fields[node[1:]] = why
                self.memo = {}
                self.changed = True
            return
        if node[1:] not in self.vars:
            self.vars.add(node[1:])
            self.why[node[1:]] = why
            self.changed = True

    def reason(self, node):
        if node[0] == "f":
            return self.fields.get(node[1:], "a secret")
        for k in [node[1:], node[1:3]] + [node[1:3] + (i,) for i in range(6)]:
            if k in self.why:
                return self.why[k]
        return "a secret"

    why = {}

    def operand(self, b, o):
        """why the operand is tainted, or None; and its type"""
        if not isinstance(o, (list, tuple)) or o[0] not in ("copy", "move"):
            return None, None
        n, t = self.node(b, o[1])
        if self.has(n) and self.carrier(t):
            return self.reason(n), t
        return None, t

    # ------------------------------------------------------------ flow
    def run(self):
        self.why = {}
        n = 0
        while self.changed and n < 60:
            self.changed = False
            n += 1
            for b in self.bodies:
                self.body(b)
        self.rounds = n
        self.final = True
        for b in self.bodies:
            self.body(b)

    final = False

    def hit(self, b, bl, what, why):
        if self.final:
            self.hits.setdefault((b, bl.get("sp", "-")), (what, why))

    def assign(self, b, place, why):
        n, t = self.node(b, place)
        if self.carrier(t):
            self.put(n, why)
            if n[0] == "f" and n[1] in self.errors and self.final:
                self.hits.setdefault((b, "field of " + n[1]), ("an error", why))
        # through a mutable reference
        if n[0] == "v":
            for m in self.muts.get((b, n[2]), ()):
                if not self.has(m):
                    self.put(m, why)

    def body(self, b):
        x = self.bodies[b]
        self.muts = self.allmuts.setdefault(b, {})
        for bl in x["blocks"]:
            if bl.get("cleanup"):
                continue
            for s in bl["s"]:
                if s[0] == "assign":
                    self.stmt(b, bl, s[1], s[2])
            if bl["t"] and bl["t"][0] == "call":
                self.call(b, bl, bl["t"])
        # the return place
        rt = self.lty(b, 0)
        if self.has(("v", b, 0)) and b not in self.rets and self.carrier(rt):
            self.rets.add(b)
            self.changed = True

    allmuts = {}

    def stmt(self, b, bl, dst, rv):
        k = rv[0]
        if k == "use":
            w, _ = self.operand(b, rv[1])
            if w:
                self.assign(b, dst, w)
            self.copy_tuple(b, dst, rv[1])
        elif k == "ref":
            n, t = self.node(b, rv[2])
            if rv[1] != "shared" and not dst[1]:
                self.muts.setdefault((b, dst[0]), set()).add(n)
                if n[0] == "v":
                    for m in self.muts.get((b, n[2]), set()).copy():
                        self.muts[(b, dst[0])].add(m)
            if self.has(n) and self.carrier(t):
                self.assign(b, dst, self.reason(n))
            elif n[0] == "v" and isinstance(strip(t), dict) and strip(t)["k"] == "tuple":
                self.copy_tuple(b, dst, ["copy", rv[2]])
        elif k == "cast":
            w, t = self.operand(b, rv[2])
            if w:
                self.assign(b, dst, w)
            elif "Unsize" in str(rv[1]) and isinstance(strip(rv[3]), dict) and strip(rv[3])["k"] == "dyn" and t is not None:
                d = strip(rv[3])["s"]
                w = self.shows(t, "debug") if "Debug" in d or "Error" in d or "Value" in d else self.shows(t, "display") if "Display" in d else None
                if w:
                    self.assign(b, dst, w)
        elif k == "agg":
            kd = rv[1]
            ops = rv[2]
            for i, o in enumerate(ops):
                w, t = self.operand(b, o)
                if not w:
                    continue
                if kd["k"] in ("closure", "coroutine"):
                    self.put(("f", kd["p"], 0, i), w)
                elif kd["k"] == "adt" and (self.p.adts.get(kd["p"]) or {}).get("local"):
                    self.put(("f", kd["p"], kd.get("v", 0) or 0, i), w)
                    if kd["p"] in self.errors:
                        self.hit(b, bl, "an error", w)
                elif kd["k"] == "tuple" and not dst[1]:
                    self.put(("v", b, dst[0], i), w)
                else:
                    self.assign(b, dst, w)

    def copy_tuple(self, b, dst, o):
        """parts of a tuple keep their own taint when the tuple is moved"""
        if not isinstance(o, (list, tuple)) or o[0] not in ("copy", "move") or dst[1]:
            return
        n, t = self.node(b, o[1])
        t = strip(t)
        if n[0] == "v" and len(n) == 3 and isinstance(t, dict) and t["k"] == "tuple":
            for i in range(min(6, len(args_of(t)))):
                if (n[1], n[2], i) in self.vars:
                    self.put(("v", b, dst[0], i), self.reason(("v", n[1], n[2], i)))

    def closures_in(self, t, out, depth=6):
        if not isinstance(t, dict) or depth == 0:
            return
        if t["k"] in ("closure", "coroutine"):
            out.add(t["p"])
            return
        for v in (t.get("a") or []):
            self.closures_in(v, out, depth - 1)
        if isinstance(t.get("t"), dict):
            self.closures_in(t["t"], out, depth - 1)

    def call(self, b, bl, t):
        f, ops, dst = t[1], t[2], t[3]
        if not isinstance(f, dict):
            # a call through a value
            name, body = "?", None
            f = {"a": [], "name": "?", "p": "?"}
        res = f.get("res") or {}
        name = f.get("name") or f.get("p") or "?"
        body = res.get("p") if res.get("p") in self.p.bodies else f.get("p") if f.get("p") in self.p.bodies else None
        tys, tainted = [], []
        for o in ops:
            w, ty = self.operand(b, o)
            tys.append(ty)
            tainted.append(w)
        if self.final:
            self.sites += 1
            self.flows += any(tainted)
        said = name.split("::")[-1] == "context" and "anyhow" in name
        why = next((w for w in (tainted[1:] if said else tainted) if w), None)
        rt = t[6] if len(t) > 6 else None
        last = name.split("::")[-1]
        if body is not None and body in self.bodies:
            if not self.is_derived(body):
                self.enter(b, body, ops, tys, tainted)
                if body in self.rets:
                    self.assign(b, dst, self.retwhy(body))
            return
        # texts of values
        gen = args_of(f)
        made = None
        if "fmt::rt::Argument::new_" in name or name.endswith("fmt::rt::Argument::new"):
            mode = "debug" if "debug" in last else "display"
            made = next((w for g in gen for w in [self.shows(g, mode)] if w), None)
        elif last == "to_string" and gen and not name.startswith("serde_json"):
            made = self.shows(gen[0], "display")
        elif name.startswith("serde_json::") and last.startswith("to_"):
            made = next((w for g in gen for w in [self.shows(g, "serde")] if w), None)
            if made and "to_writer" in last and self.which == "romeo":
                self.hit(b, bl, "written data", made)
        elif name.startswith("tracing::") and gen:
            made = next((w for g in gen for w in [self.shows(g, "debug")] if w), None)
        elif any(self.secret_type(x) for x in tys if x) and not any(q in last for q in NOKEY):
            if self.textres(rt):
                made = next(strip(x)["p"].split("::")[-1] for x in tys if x and self.secret_type(x))
        # where it ends
        if why or made:
            s = sink(name)
            if s and not (s == "the output" and self.bodies[b]["name"].startswith("sbtc::")):
                # how a secret type is printed is no leak, printing it is
                if not (s == "a printed form" and any(b.startswith(q) for q in self.secretimpls)):
                    self.hit(b, bl, s, why or made)
            elif self.which == "romeo" and writes(name) and why and not tainted[0]:
                self.hit(b, bl, "written data", why)
            elif last in ("expect", "expect_err") and len(tainted) > 1 and tainted[1]:
                self.hit(b, bl, "a panic message", tainted[1])
        if last in ("unwrap", "expect") and "result" in name.lower() and len(gen) > 1:
            w = self.shows(gen[1], "debug")
            if w:
                self.hit(b, bl, "a panic message", w)
        if last == "from" and rt is not None and strip(rt).get("p") == "anyhow::Error" and gen:
            w = next((w for g in gen for w in [self.shows(g, "debug")] if w), None) or why
            if w:
                self.hit(b, bl, "an error", w)
        # onwards
        if any(name.endswith(q.split("::", 1)[1]) and "url" in name.lower() for q in CLEAN):
            return
        w = why or made
        cl = set()
        for ty in tys + gen:
            self.closures_in(ty, cl)
        for o in ops:
            if isinstance(o, (list, tuple)) and o[0] == "const" and isinstance(o[1], dict):
                self.closures_in(o[1].get("t") or {}, cl)
        for q in cl:
            if q in self.bodies:
                if w:
                    for i in range(2, self.bodies[q]["args"] + 1):
                        if self.carrier(self.lty(q, i)):
                            self.put(("v", q, i), w)
                            ty = strip(self.lty(q, i))
                            if isinstance(ty, dict) and ty["k"] == "tuple":
                                pass
                if q in self.rets:
                    self.assign(b, dst, self.retwhy(q))
        if w:
            self.assign(b, dst, w)
            for o, ty in zip(ops, tys):
                if isinstance(ty, dict) and ty["k"] == "ref" and ty.get("m") and isinstance(o, (list, tuple)) and o[0] in ("copy", "move") and self.carrier(ty["t"]) and (ty["t"]["k"] != "param"):
                    self.assign(b, [o[1][0], []], w)
                    for m in self.muts.get((b, o[1][0]), ()):
                        self.put(m, w)

    def textres(self, t):
        t = strip(t)
        if not isinstance(t, dict):
            return False
        if t["k"] in ("str",):
            return True
        if t["k"] in ("array", "slice"):
            return t["t"]["k"] == "num" and t["t"]["n"] == "u8"
        return t["k"] == "adt" and (t["p"] == "alloc::string::String" or t["p"].endswith(("DisplaySecret", "vec::Vec")))

    def retwhy(self, body):
        return self.reason(("v", body, 0))

    def enter(self, b, body, ops, tys, tainted):
        x = self.bodies[body]
        for i, (w, ty) in enumerate(zip(tainted, tys)):
            if i + 1 > x["args"]:
                break
            pt = self.lty(body, i + 1)
            if w and self.carrier(pt):
                self.put(("v", body, i + 1), w)
            elif ty is not None and isinstance(strip(pt), dict) and strip(pt)["k"] == "param":
                s = self.shows(ty, "debug")
                if s:
                    self.put(("v", body, i + 1), s)
        # what the callee wrote through its mutable parameters
        for i, (o, ty) in enumerate(zip(ops, tys)):
            if isinstance(ty, dict) and ty["k"] == "ref" and ty.get("m") and (body, i + 1) in self.vars and not tainted[i]:
                self.assign(b, [o[1][0], []], self.why.get((body, i + 1), "a secret"))
                for m in self.muts.get((b, o[1][0]), ()):
                    self.put(m, self.why.get((body, i + 1), "a secret"))


def analyse(c, prog, which, names, beside=None):
    t = Taint(prog, which, beside)
    t.allmuts = {}
    extra(t, which)
    for n in names:
        c.fact(any(s.endswith("." + n) for s in t.src), f"{which}:source:{n}", "-", f"no configured value called {n} was found, so what becomes of it is unknown")
    t.run()
    c.fact(t.rounds < 60, f"{which}:fixpoint", "-", "the flow of secrets could not be followed to its end")
    for (b, sp), (what, why) in sorted(t.hits.items()):
        nm = prog.bodies[b]["name"]
        c.fact(False, f"{which}:{nm}:{what}", f"{sp} {nm}", f"a secret ({why}) reaches {what}")
    for b in t.bodies:
        c.functions.add(prog.bodies[b]["name"])
        c.fact(not any(k[0] == b for k in t.hits), f"{which}:quiet:{b}", b, "see the other entries")
    c.notes.append(f"{which}: {len(t.bodies)} functions, {t.sites} call sites, {t.flows} with secret arguments, {len(t.vars)} secret locals, fields {sorted(set(t.src))}")
    return t


def extra(t, which):
    """arguments that are secrets by what they are for"""
    if which != "core":
        return
    for b, x in t.bodies.items():
        if x["name"].endswith("wallet::Wallet::new") and x["args"] == 1:
            t.put(("v", b, 1), "mnemonic")
            t.src.append("Wallet::new.mnemonic")
        if "wif" in b and x["name"].endswith(("::try_from", "::from_bytes")) and x["args"] == 1:
            t.put(("v", b, 1), "wallet import string")


def relayer(c):
    d = prep.dump("core")
    analyse(c, c.prog, "romeo", ("mnemonic", "hiro_api_key", "bitcoin_node_url"), engine.Prog(list(d.values())))


def tools(c):
    d = prep.dump("core")
    analyse(c, engine.Prog(list(d.values())), "core", ("mnemonic", "wif"))


PARTS = [relayer, tools]

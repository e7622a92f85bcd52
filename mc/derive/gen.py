#!/usr/bin/env python3
"""gen.py DIR quick|thorough derived|by-hand

Enumerates items on which `#[derive(xtra::Actor)]` is used, up to a bound, and writes a cargo
package with them to DIR: either the derive is used, or the trait is implemented by hand for the
same items. Every item is instantiated with types that satisfy the declared bounds, `Send` and
`'static` but nothing else, and run as an actor.
"""
import itertools, json, os, shutil, sys

HERE = os.path.dirname(os.path.abspath(__file__))
BINS = 16

# (id, declaration, type of a field using it, argument, value of the field, has a default, predicates it allows in a where clause)
TYPE = [
    ("plain", "{X}", "{X}", "Only", "Only::new()", 0),
    ("bound", "{X}: Clone", "{X}", "Cl", "Cl::new()", 0),
    ("maybe", "{X}: ?Sized", "Box<{X}>", "dyn Marker + Send", "Box::new(Only::new())", 0),
    ("assoc", "{X}: Tr", "({X}, Option<{X}::Assoc>)", "Only", "(Only::new(), None)", 0),
    ("dflt", "{X} = Only", "{X}", "Only", "Only::new()", 1),
    ("bdflt", "{X}: Tr + Marker = Only", "{X}", "Only", "Only::new()", 1),
    ("eq", "{X}: Tr<Assoc = Cell<u8>>", "{X}", "Only", "Only::new()", 0),
    ("fnptr", "{X}: Fn(u8) -> u8", "{X}", "fn(u8) -> u8", "id8 as fn(u8) -> u8", 0),
    ("hrtb", "{X}: for<'a> Hr<'a>", "{X}", "Only", "Only::new()", 0),
    ("dup", "{X}: Send + 'static", "{X}", "Only", "Only::new()", 0),
    ("attr", "#[allow(non_camel_case_types)] {X}", "{X}", "Only", "Only::new()", 0),
    ("phantom", "{X}", "PhantomData<{X}>", "Only", "PhantomData", 0),
    ("arr", "{X}", "[{X}; 2]", "Only", "[Only::new(), Only::new()]", 0),
]
CONST = [
    ("usize", "const {X}: usize", "[u8; {X}]", "2", "[0, 1]", 0),
    ("usized", "const {X}: usize = 2", "[u8; {X}]", "2", "[0, 1]", 1),
    ("bool", "const {X}: bool", "u8", "true", "0", 0),
    ("chard", "const {X}: char = 'x'", "u8", "'x'", "0", 1),
    ("block", "const {X}: u8 = {{ 1 + 1 }}", "u8", "{{ 1 + 1 }}", "0", 1),
]
OPT = [("t", *t) for t in TYPE] + [("c", *c) for c in CONST]

# Predicates for where clauses: without a parameter, for a type parameter, for a constant.
PRED0 = ["u8: Copy", "Self: Sized", "String: 'static", "for<'a> &'a u8: Copy", "Self: Send", "u8: Into<u16>"]
PREDT = ["{X}: Marker", "{X}: Send", "Vec<Box<{X}>>: Sized", "for<'a> &'a {X}: Copy", "Box<{X}>: Send, {X}: 'static"]
PREDC = ["[u8; {X}]: Sized"]

KINDS = ["unit", "tuple", "named", "enum", "enumnamed", "mixed"]

# What else may be in scope of the item.
SCOPES = [
    "pub struct Send;", "pub trait Send {}", "pub struct Future;", "pub struct Result;", "pub mod core {}", "pub mod std {}",
    "pub mod alloc {}", "pub enum Option_ { None, Some }", "pub trait Sized_ {}", "pub type Stop = u8;", "pub trait Actor {}",
    "pub fn drop() {}", "pub struct Sync; pub struct Sized; pub struct Unpin;", "pub trait Sync {} pub trait Drop_ {}",
    "pub mod mem {} pub mod marker {} pub mod future {} pub mod pin {}", "pub mod prelude {} pub mod refcount {}",
    "pub struct Mailbox; pub struct Context; pub struct Address; pub struct Error;", "pub struct Box_; pub struct Either;",
    "#[derive(Debug)] pub enum ControlFlow { Continue, Break }", "pub const fn stopped() -> u8 { 1 } pub fn started() {}",
    "macro_rules! drop { () => {} } macro_rules! impl_ { () => {} }", "pub const SELF: u8 = 1; pub static STOP: u8 = 1;",
    "pub trait Hook { type Stop; fn stopped(self) -> u8; fn started(&mut self) {} } impl<X> Hook for X { type Stop = u8; fn stopped(self) -> u8 { 1 } }",
    "pub trait Handler<M> {}", "pub use xtra as actors;", "pub use self::own::Stop; pub mod own { pub struct Stop; }",
]
# The same, together with something that concerns the item itself (called S, without parameters).
INHERENT = [
    "impl S { pub fn stopped(&self) -> u8 { 1 } pub fn started(&self) {} }", "impl S { pub async fn stopped(self) {} pub const STOP: u8 = 1; }",
    "impl S { pub fn new() -> Self { loop {} } pub fn drop(self) {} }", "impl Drop for S { fn drop(&mut self) {} }",
    "pub trait Own { type Stop; fn stopped(&self) {} } impl Own for S { type Stop = u8; }",
    "impl xtra::Handler<u8> for S { type Return = (); async fn handle(&mut self, _: u8, _: &mut xtra::Context<Self>) {} }",
    "impl ::std::ops::Deref for S { type Target = u8; fn deref(&self) -> &u8 { &1 } }",
    "impl ::std::future::Future for S { type Output = u8; fn poll(self: ::std::pin::Pin<&mut Self>, _: &mut ::std::task::Context<'_>) -> ::std::task::Poll<u8> { loop {} } }",
    "impl ::std::fmt::Debug for S { fn fmt(&self, _: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { loop {} } }",
]
# Names of variants that the derived implementation might refer to.
VARIANTS = ["Stop", "Stop, Actor, Send, Future", "Ok, Err, None, Some", "Stop(u8), Output { Stop: u8 }", "Self_, Context, Mailbox"]


def item(kind, name, decl, where, fields):
    """Returns the item and a constructor of it, given (type, value) of its fields."""
    g = f"<{decl}>" if decl is not None else ""
    tys = [f[0] for f in fields] + ["Tracker"]
    vals = [f[1] for f in fields] + ["Tracker::new()"]
    w = f" {where}" if where is not None else ""
    nm = [f"f{i}" for i in range(len(tys))]
    named = ", ".join(f"{n}: {t}" for n, t in zip(nm, tys))
    namedv = ", ".join(f"{n}: {v}" for n, v in zip(nm, vals))
    if kind == "tuple":
        return f"pub struct {name}{g}({', '.join(tys)}){w};", f"{name}({', '.join(vals)})"
    if kind == "named":
        return f"pub struct {name}{g}{w} {{ {named} }}", f"{name} {{ {namedv} }}"
    if kind == "enum":
        return f"pub enum {name}{g}{w} {{ A({', '.join(tys)}), B }}", f"{name}::A({', '.join(vals)})"
    if kind == "enumnamed":
        return f"pub enum {name}{g}{w} {{ A {{ {named} }} }}", f"{name}::A {{ {namedv} }}"
    if kind == "mixed":
        vs = "".join(f"V{i}({t}), " for i, t in enumerate(tys))
        return f"pub enum {name}{g}{w} {{ {vs}U = 7 }}".replace("U = 7", "U"), f"{name}::V{len(tys) - 1}(Tracker::new())"
    if kind.startswith("variants:"):
        return f"pub enum {name}{g}{w} {{ {kind[9:]}, A({', '.join(tys)}) }}", f"{name}::A({', '.join(vals)})"
    if kind == "attributes":
        return f"/// Documented.\n    #[doc(hidden)] #[must_use] #[repr(C)] #[cfg_attr(all(), allow(dead_code))] #[non_exhaustive] #[derive()] pub(crate) struct {name}{g}{w} {{ /** field */ #[doc(hidden)] {named} }}", f"{name} {{ {namedv} }}"
    if kind == "reprenum":
        return f"#[repr(u8)] #[allow(clippy::all)] enum {name}{g}{w} {{ Z = 3, A({', '.join(tys)}) = 9 }}", f"{name}::A({', '.join(vals)})"
    if kind == "fieldnames":
        return f"pub struct {name}{g}{w} {{ {', '.join(f'{n}: {t}' for n, t in zip(['stopped', 'r#type', 'actor', 'mailbox', 'ctx'], tys))} }}", f"{name} {{ {', '.join(f'{n}: {v}' for n, v in zip(['stopped', 'r#type', 'actor', 'mailbox', 'ctx'], vals))} }}"
    raise ValueError(kind)


class Case:
    pass


def cases(tier):
    thorough = tier == "thorough"
    out = []

    def add(kind, params, preds, wf, name="S", names=None, scope="", use="xtra::Actor", vis=None):
        """params: options; preds: predicates or None for no where clause; wf: trailing comma"""
        names = names or ["T", "U", "V"]
        seen_default = False
        for p in params:
            if seen_default and not p[6]:
                return
            seen_default = seen_default or bool(p[6])
        if kind == "unit" and params and any(p[0] == "t" for p in params):
            return
        d = [p[2].format(X=n) for p, n in zip(params, names)]
        decl = ", ".join(d) if params else None
        where = None if preds is None else ("where " + ", ".join(preds) + ("," if wf and preds else ""))
        fields = [(p[3].format(X=n), p[5]) for p, n in zip(params, names)]
        c = Case()
        if kind == "unit":
            g = f"<{decl}>" if decl is not None else ""
            c.item, c.make, c.tracked = f"pub struct {name}{g}{' ' + where if where else ''};", name, False
        else:
            c.item, c.make = item(kind, name, decl, where, fields)
            c.tracked = True
        args = [p[4].replace("{{", "{").replace("}}", "}") for p in params]
        c.ty = f"{name}<{', '.join(args)}>" if params else name
        # By hand
        impl = ", ".join(x.split(" = ")[0] if p[6] else x for x, p in zip(d, params))
        impl = f"<{impl}>" if params else ""
        bounds = list(preds or []) + [f"{n}: ::core::marker::Send + 'static" for p, n in zip(params, names) if p[0] == "t"]
        targs = f"<{', '.join(names[:len(params)])}>" if params else ""
        c.hand = f"impl{impl} xtra::Actor for {name}{targs} where {', '.join(bounds)} {{ type Stop = (); async fn stopped(self) {{}} }}"
        c.scope, c.use = scope, use
        c.run = len(params) < 2 or thorough and len(params) == 2 and kind == "tuple"
        out.append(c)

    where0 = [(None, 0), ([], 0)] + [([p], t) for p in PRED0 for t in (0, 1)] + [(PRED0[:2], 0), (PRED0[:3], 1)]
    # No parameters
    for k in KINDS:
        for w, t in where0:
            add(k, [], w, t)

    def wheres(params, full):
        names = ["T", "U", "V"]
        per = []
        for p, n in zip(params, names):
            if p[0] == "t":
                ok = PREDT if p[1] in ("plain", "dflt", "dup", "attr", "phantom", "arr") else (PREDT[1:] if p[1] != "maybe" else [PREDT[1], PREDT[4]])
                if p[1] == "maybe":
                    ok = ["{X}: Marker"] + ok
                per.append([x.format(X=n) for x in ok])
            else:
                per.append([x.format(X=n) for x in PREDC] if p[1].startswith("usize") else [])
        ws = [(None, 0), ([], 0)]
        for l in per:
            for i, x in enumerate(l):
                ws += [([x], i % 2)] if not full else [([x], 0), ([x], 1)]
        if full:
            ws += [([PRED0[0]], 0), ([PRED0[1]], 1)]
            ws += [(list(c), i % 2) for i, c in enumerate(itertools.product(*[l for l in per if l])) if len(c) > 1]
        return ws

    # One parameter
    for k in KINDS:
        for p in OPT:
            for w, t in wheres([p], True):
                add(k, [p], w, t)
    # Two parameters
    kinds2 = KINDS if thorough else ["tuple", "enum"]
    for k in kinds2:
        for a, b in itertools.product(OPT, OPT):
            ws = wheres([a, b], False)
            if not thorough:
                ws = ws[:1] + ws[-1:]
            for w, t in ws:
                add(k, [a, b], w, t)
    # Three parameters
    o3 = [OPT[i] for i in (0, 1, 2, 4, 13, 14)] if not thorough else [OPT[i] for i in (0, 1, 2, 3, 4, 6, 8, 13, 14, 15)]
    for k in (["named"] if not thorough else ["tuple", "named", "mixed"]):
        for ps in itertools.product(o3, repeat=3):
            for w, t in wheres(list(ps), False)[-1:] if not thorough else wheres(list(ps), False)[::2]:
                add(k, list(ps), w, t)
    # Names and what else is in scope
    for k in ("tuple", "enum", "unit"):
        for nm in ("r#type", "Stop", "Actor_", "Context", "Result", "Self_", "r#async"):
            add(k, [], None, 0, name=nm)
            add(k, [OPT[0]], None, 0, name=nm)
            add(k, [OPT[0]], ["r#fn: Marker"], 0, name=nm, names=["r#fn"])
        for pn in ("A", "M", "Stop", "F", "Fut", "Future", "Output", "R", "r#dyn", "Send"):
            if pn != "Send":
                add(k, [OPT[1]], [f"{pn}: Clone"], 1, names=[pn])
            add(k, [OPT[0]], None, 0, names=[pn])
            if pn not in ("Send", "Future"):  # Does not compile by hand either, if there is a type of that name.
                add(k, [OPT[13]], None, 0, names=[pn])
        for sc in SCOPES:
            use = "xtra::Actor"
            add(k, [], None, 0, scope=sc, use=use)
            add(k, [OPT[0]], None, 0, scope=sc, use=use)
            add(k, [OPT[13]], None, 0, scope=sc, use=use)
        add(k, [OPT[0]], None, 0, scope="use xtra::Actor;", use="Actor")
        add(k, [OPT[0]], None, 0, scope="use xtra::prelude::*;", use="Actor")
        add(k, [OPT[0]], None, 0, scope="use xtra::*;", use="Actor")
        add(k, [OPT[0]], None, 0, scope="use xtra::Actor as Derived;", use="Derived")
        add(k, [OPT[0]], None, 0, scope="use ::xtra as other;", use="other::Actor")
        for sc in INHERENT:
            add(k, [], None, 0, scope=sc)
    for k in [f"variants:{v}" for v in VARIANTS] + ["attributes", "reprenum", "fieldnames"]:
        for ps in ([], [OPT[0]], [OPT[1]], [OPT[13]], [OPT[0], OPT[13]], [OPT[4]]):
            for w, t in ((None, 0), ([PRED0[1]], 0), (PRED0[:2], 1)):
                add(k, ps, w, t)
    return out


def module(i, c, derive):
    s = f"pub mod m{i} {{\n    #![allow(unused, non_camel_case_types, private_interfaces, private_bounds, dead_code)]\n"
    s += "    use super::support::{Only, Cl, Tr, Hr, Marker, Tracker, id8, PhantomData, Cell};\n"
    if c.scope:
        s += f"    {c.scope}\n"
    if derive:
        s += f"    #[derive({c.use})]\n    {c.item}\n"
    else:
        s += f"    {c.item}\n    {c.hand}\n"
    if c.run:
        s += f"    super::support::case!({c.ty}, {c.make}, {'true' if c.tracked else 'false'});\n}}\n"
    else:
        s += f"    pub fn check() {{ super::support::assert_actor::<{c.ty}>() }}\n}}\n"
    return s


def main():
    d, tier, how = sys.argv[1:4]
    derive = how == "derived"
    src = os.path.join(d, "src", "bin")
    shutil.rmtree(os.path.join(d, "src"), ignore_errors=True)
    os.makedirs(src)
    cs = cases(tier)
    toml = open(os.path.join(HERE, "Cargo.toml.in")).read()
    for b in range(BINS):
        mine = [(i, c) for i, c in enumerate(cs) if i % BINS == b]
        with open(os.path.join(src, f"b{b}.rs"), "w") as f:
            f.write(f'#[path = "{HERE}/support.rs"]\n#[macro_use]\nmod support;\n')
            for i, c in mine:
                f.write(module(i, c, derive))
            f.write("fn main() {\n    let mut n = 0;\n")
            for i, _ in mine:
                f.write(f"    support::go({i}, m{i}::check, &mut n);\n")
            f.write('    println!("ran {n}");\n    if support::failed() { std::process::exit(1) }\n}\n')
        ed = ["2021", "2018", "2021", "2024"][b % 4]
        toml += f'\n[[bin]]\nname = "b{b}"\npath = "src/bin/b{b}.rs"\nedition = "{ed}"\n'
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write(toml)
    shutil.copy(os.path.join(HERE, "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    print(json.dumps({"cases": len(cs), "bins": BINS, "samples": [cs[i * len(cs) // 6].item for i in range(6)]}))


main()
